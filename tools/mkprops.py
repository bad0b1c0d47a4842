#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
S = "spatialops/"; ST = S + "structured/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe or [], hook_needed=None)))

p("P01", "Memory pool: exclusive, large-enough, reused, exactly counted buffers",
  "Every buffer the pool hands out has room for at least the requested number of values and shares no byte with any other buffer that is handed out and not yet returned, for every sequence of get and put calls. "
  "Once a buffer has been returned, a request of the same size is served from returned memory rather than by a fresh allocation, and a request that cannot be met (unsupported memory type, allocation failure) raises an exception and leaves the pool as it was. "
  "At every moment total() is the number of buffers ever allocated and active() the number handed out and not yet returned.",
  ["histories"], "All get/put sequences, sizes and value types (double, float, unsigned int).",
  "memtest1/2 exercise a few fixed sequences; overlap, wrong-bucket returns and drifting counts need particular interleavings of sizes and returns.",
  [ST+"MemoryPool.h", ST+"MemoryPool.cpp"], [("size-classed free lists", ST+"MemoryPool.cpp")],
  ["Pool<T>::get/put/active/total"], [("free lists", "returned buffers by size class", ST+"MemoryPool.h")])

p("P02", "Shared field handles free storage exactly once, after the last handle",
  "A field obtained from the field store keeps its storage and contents for as long as at least one live, undetached SpatFldPtr refers to it, and its storage goes back to the pool exactly once, when the last such handle is destroyed, reassigned to another field or detached. "
  "This holds for every order of copy construction, assignment (including self-assignment and assignment from or to empty handles), detach and destruction, and count() always equals the number of handles sharing the field. "
  "A handle built around a heap-allocated field takes that field object over, deletes it once with the last such handle, and never frees or changes memory the user supplied to it.",
  ["histories"], "All histories of create / copy / assign / self-assign / detach / destroy over any number of handles and fields.",
  "The tests copy one or two handles in straight lines; double releases and leaks need specific aliasing histories, and show up only when the released storage is handed out again.",
  [ST+"SpatialFieldStore.h", ST+"MemoryPool.cpp"], [("reference count", ST+"SpatialFieldStore.h"), ("restore_field", ST+"SpatialFieldStore.h")],
  ["SpatFldPtr API", "Pool::active()", "SpatialFieldStore::active()/total()"])

p("P03", "Field store returns correctly shaped fields in private memory",
  "A field obtained from the field store has the window, ghost cells and boundary information asked for or, when derived from a prototype field of another type, the prototype's cells without ghosts and boundary extras, plus the ghosts requested and the new type's own boundary extras. "
  "Its memory holds at least its whole window and overlaps no other live field, whatever has been acquired and released before. "
  "Writing every cell of one live field, ghosts included, never changes any cell of another live field.",
  ["histories", "inputs"], "All field types, extents, ghost counts, boundary flags, acquisition modes (prototype, window, ghost override) and acquire/release histories.",
  "Tests use a few shapes and never reuse a buffer of a different shape while checking all other live fields.",
  [ST+"SpatialFieldStore.h", ST+"SpatialField.h", ST+"MemoryPool.cpp"], [("SpatialFieldStore::get / get_from_window", ST+"SpatialFieldStore.h")],
  ["SpatialFieldStore::get", "SpatialFieldStore::get_from_window", "field windows and values"])

p("P04", "Memory window indexing is an exact inverse pair inside the window",
  "For every memory window, the flat index of a local (i,j,k) is the position of that cell in the global column-major block, distinct cells get distinct indices, and converting a flat index to (i,j,k) inverts it. "
  "Point counts, extents and offsets are those given at construction, survive copying and assignment, and two windows compare equal exactly when dimensions, offset and extent all agree.",
  ["inputs"], "All global sizes, offsets and extents, including degenerate directions.",
  "testMemWindow checks two or three shapes; an axis mix-up or a dropped offset shows only for particular unequal sizes and offsets.",
  [ST+"MemoryWindow.h", ST+"MemoryWindow.cpp", ST+"IntVec.h", ST+"Numeric3Vec.h"], [("flat_index / ijk_index_from_*", ST+"MemoryWindow.h"), ("ijk_to_flat / flat_to_ijk", ST+"IntVec.h")])

p("P05", "Window refinement tiles the window exactly",
  "Splitting a window into any pattern of parts no larger than its extent yields sub-windows that lie inside it, are pairwise disjoint and together cover every cell exactly once. "
  "All parts keep the global dimensions, and along each axis part sizes differ by at most one cell with the larger parts first.",
  ["inputs", "configurations"], "All windows, split patterns and part locations.",
  "Every threaded assignment depends on it, but tests try a few divisible shapes; remainders handled wrongly lose or double cells only for particular sizes.",
  [ST+"MemoryWindow.cpp"], [("MemoryWindow::refine", ST+"MemoryWindow.cpp")])

p("P06", "Field iterators walk exactly the window, in order, with random access",
  "Mutable and constant iterators over a field (with ghosts, or interior only) visit each cell of the window exactly once in column-major order, report that cell's location, and meet end() after exactly the window's number of points. "
  "Any mixture of ++, --, +=, -=, +, -, [] and differences that stays between begin and end lands on the same cell as the same number of single steps, and iterator differences and comparisons agree with positions.",
  ["inputs", "histories"], "All windows (offsets, extents, degenerate axes) and all movement sequences between begin and end.",
  "Tests loop with ++ only or take a few jumps; row and plane crossings after arbitrary jumps in offset windows are not reached.",
  [ST+"MemoryWindow.h", ST+"SpatialField.h"], [("FieldIterator / ConstFieldIterator", ST+"MemoryWindow.h")])

p("P07", "Field copies, views and reshaped fields alias exactly the right cells",
  "A copy-constructed field, a windowed copy and a reshaped field share memory with the original, so a write through one is seen through the others at the corresponding cell, and the windows with and without ghosts each describe are those implied by the original window, the ghosts and the boundary information. "
  "Field assignment copies values cell by cell between equally shaped fields and leaves every cell outside the destination's window unchanged; shrinking or growing the valid ghost region moves the iteration window accordingly and never touches values. "
  "Storage the field does not own (external storage) is never freed, and internally allocated storage is released exactly once, when the field that allocated it is destroyed.",
  ["inputs", "histories"], "All window shapes, ghosts, boundary flags, storage modes and sequences of copy/view/assign/reset.",
  "testField checks a single shape; offsets of views of views and asymmetric ghosts are not covered.",
  [ST+"SpatialField.h"], [("SpatialField constructors, operator=, reset_valid_ghosts", ST+"SpatialField.h")])

p("P08", "Rejected field requests raise an error and leave the field usable",
  "Asking a CPU field for values, a consumer, assignment or handling on a device or memory type this build does not support raises an exception, as does building a field on an unsupported memory type. "
  "After such a rejected request the field's values, its window and its readability and writability are unchanged.",
  ["histories", "fault_sequences"], "All placements of failing requests in a history of reads and writes.",
  "No test continues to use a field after a rejected request.",
  [ST+"SpatialField.h"], [("add_consumer / find_consumer / field_values", ST+"SpatialField.h")])

p("P09", "Ghost-cell counts form the documented algebra",
  "Adding, subtracting and taking minima of ghost-cell counts act independently on the six faces; the infinite ghost count used for scalars absorbs addition and is the identity of minimum; equality holds exactly when all six faces agree. "
  "Subtracting an infinite count raises an exception, and converting a point offset to ghosts puts its magnitude on the minus face when negative and on the plus face when positive.",
  ["inputs"], "All ghost counts (finite and infinite) and operation sequences.",
  "Only used indirectly by tests with symmetric ghosts; a swapped face or lost infinity survives symmetric inputs.",
  [ST+"GhostData.h", ST+"GhostData.cpp"], [("GhostData operators", ST+"GhostData.cpp")])

p("P10", "Field sizing from grid dimensions, ghosts and boundary flags",
  "Every field type has the documented staggering and boundary-extra counts, and boundary information reports an extra cell in a direction exactly when a physical boundary is flagged there and the type has an extra in that direction. "
  "The window for a grid of given dimensions has, in each direction with more than one cell, the cells plus both ghost layers plus the extra, and a single cell otherwise; the interior window excludes exactly the ghosts.",
  ["inputs", "configurations"], "All field types, dimensions, ghosts and boundary-flag combinations.",
  "Tests use one ghost layer on all faces and mostly cubic grids.",
  [ST+"FVTools.h", ST+"BoundaryCellInfo.h", ST+"FVStaggeredLocationTypes.h", ST+"FVStaggeredFieldTypes.h", ST+"IndexTriplet.h"],
  [("get_window_with_ghost", ST+"FVTools.h"), ("BoundaryCellInfo", ST+"BoundaryCellInfo.h")])

p("P11", "A mask contains exactly the given points",
  "A spatial mask built from a list of points answers true for exactly those points of the field's window (ghost cells addressed by negative or past-the-end indices included) and false for every other, whatever the order, duplication or number of points. "
  "Its iteration in memory order and any copies of it agree with that set, and masks never change each other.",
  ["inputs", "histories"], "All window shapes, ghosts and point sets, particularly point sets straddling machine-word boundaries of the bit storage.",
  "testMask uses one small window; bit-packing errors appear only at particular flat indices.",
  [ST+"SpatialMask.h", ST+"BitField.h"], [("SpatialMask", ST+"SpatialMask.h"), ("BitField", ST+"BitField.h")])

p("P12", "Pointwise assignment writes exactly the valid cells with exact values",
  "Assigning a stencil-free expression of fields, single-value fields and constants writes, in every cell that is valid in all participating fields, the value obtained by evaluating the expression at that cell from the operands' values before the assignment, and changes no other cell of any field. "
  "interior_assign does the same restricted to the interior cells plus boundary extras (where the expression must be valid). "
  "An assignment that cannot fill the interior up to a flagged boundary raises an exception and changes nothing. "
  "The result is the same when the assigned field also appears on the right-hand side.",
  ["programs", "inputs"], "All expressions over + - * / comparisons and numeric functions, all window shapes, per-field ghost counts and boundary flags.",
  "NeboTest checks one operator at a time on one shape with equal ghosts on all faces; asymmetric ghosts and compositions are not reached.",
  [S+"NeboLhs.h", S+"NeboRhs.h", S+"NeboOperators.h", S+"NeboAssignment.h", S+"NeboBasic.h"], [("NeboField::assign", S+"NeboLhs.h"), ("calculate_valid_ghost", S+"NeboBasic.h")])

p("P13", "Stencil expressions are evaluated exactly where their inputs are valid",
  "Assigning an expression containing arbitrarily nested and combined stencil operators writes every cell of the destination whose complete stencil footprint lies in valid cells (a box computed face by face) with the weighted sum over that footprint, and changes no other cell, provided the assigned field does not itself appear inside a stencil. "
  "An assignment whose valid region does not cover the interior up to a flagged boundary raises an exception and changes nothing. "
  "It never reads an invalid cell, so the result in written cells does not depend on the contents of cells outside the operands' valid regions.",
  ["programs", "inputs"], "All compositions of two-point, four-point, finite-difference, null, box-filter and single-point shift operators, with sums and products between, all ghost counts and boundary flags.",
  "Tests compare few fixed chains with one ghost count; the valid-region arithmetic depends on the combination of offsets and asymmetric ghosts.",
  [S+"NeboStencils.h", S+"NeboStencilBuilder.h", S+"NeboBasic.h", S+"NeboLhs.h"], [("possible_ghosts arithmetic", S+"NeboStencils.h"), ("Stencil point collections", S+"NeboStencilBuilder.h")])

p("P14", "Threaded evaluation equals sequential evaluation for every schedule",
  "With expression threads enabled, assigning any expression gives cell for cell the same fields as sequential evaluation, for every number of threads and partitions, every field shape and every interleaving of the worker threads. "
  "The assignment returns only after all cells have been written.",
  ["schedules", "configurations", "programs"], "All worker interleavings, thread and partition counts, shapes and expressions.",
  "Tests run on whatever schedule the machine gives; a partition lost, doubled or finished late depends on shape, count and timing.",
  [S+"NeboLhs.h", S+"NeboBasic.h", S+"ThreadPool.cpp", S+"Semaphore.h", ST+"MemoryWindow.cpp"], [("thread_parallel_assign", S+"NeboLhs.h"), ("nebo_find_partition", S+"NeboBasic.h")])

p("P15", "Every registered operator has the documented geometry and coefficients",
  "Each interpolation, gradient, divergence, filter and finite-difference operator built for a uniform grid computes, at each destination cell, the documented combination of the neighbouring source cells determined by the staggering of source and destination: averages (1/2, 1/4, 1/27), centred differences divided by the spacing of that direction, or the co-located value. "
  "The operator database filled for a grid holds one operator for each supported (operator, source, destination) triple.",
  ["configurations", "inputs"], "All supported operator/source/destination triples, grid shapes and spacings.",
  "Tests compare many types but against code sharing the same traits, and with equal spacing in the three directions mixing axes stays invisible.",
  [ST+"stencil/StencilBuilder.cpp", ST+"stencil/FVStaggeredOperatorTypes.h", S+"NeboStencilBuilder.h", ST+"FVStaggeredLocationTypes.h"],
  [("build_stencils", ST+"stencil/StencilBuilder.cpp"), ("StencilNCollection", S+"NeboStencilBuilder.h")])

p("P16", "Conditional expressions take the first true clause at each cell",
  "A cond expression yields, at every cell, the value of the first clause whose condition is true at that cell and the default when none is, for conditions built from comparisons, masks, constants and boolean and/or/not, and for results of any mixture of constants, fields, single-value fields and expressions. "
  "The choice is made per cell and is independent of neighbouring cells.",
  ["programs", "inputs"], "All clause lists, kinds of conditions and results, and data.",
  "cond_test covers chosen clause kinds; the number of clause-kind combinations is far larger and each is separate generated code.",
  [S+"NeboCond.h", S+"NeboOperators.h", S+"NeboMask.h"], [("cond builders", S+"NeboCond.h")])

p("P17", "Reductions fold each cell of their region exactly once",
  "Sum, max, min, norm and user-defined folds of a field or expression equal the fold over exactly the cells valid in all operands (or, for the interior forms, the interior cells without boundary extras), each taken once, in memory order. "
  "They do not modify any field.",
  ["programs", "inputs"], "All shapes, ghosts, boundary flags, expressions and data.",
  "Tests reduce one shape; cells skipped or doubled at window edges can keep a max or min right while the fold is wrong.",
  [S+"NeboReductions.h", S+"NeboRhs.h"], [("nebo_fold / nebo_reduce", S+"NeboReductions.h")])

p("P18", "Boundary-condition operators impose the value and touch nothing else",
  "After applying a boundary condition at a set of face points or through a mask, applying the associated interpolation or gradient at these points yields the prescribed value exactly (for exactly representable coefficients). "
  "Only the one designated unknown cell (on the chosen minus or plus side) of each point changes; all others keep their values. "
  "This is for sets of points in which no designated cell is another point's source; with no side given, one of the two cells next to the point is solved for. "
  "A BoundaryCondition sets the given cells of a field to the prescribed values and changes nothing else.",
  ["inputs", "configurations"], "All staggered field pairs, directions, sides, point sets, grid shapes and prescribed values.",
  "testOpBC uses a fixed grid and checks with tolerances at single points.",
  [ST+"stencil/FVStaggeredBCOp.h", S+"NeboStencilBuilder.h", ST+"FVStaggeredBCTools.h", S+"NeboMask.h"], [("BoundaryConditionOp", ST+"stencil/FVStaggeredBCOp.h"), ("NeboBoundaryConditionBuilder", S+"NeboStencilBuilder.h")])

p("P19", "Grid coordinates follow spacing and staggering",
  "For every field type, setting coordinates on a field assigns to each cell, ghosts included, (index relative to the first interior cell) times the spacing of that direction, plus half a spacing for unstaggered directions and nothing for staggered ones. "
  "The spacing in each direction is length divided by the number of cells, and coordinates in one direction do not vary along the others.",
  ["inputs", "configurations"], "All field types, directions, grid shapes, lengths, ghosts and boundary flags.",
  "testGrid checks one grid with symmetric ghosts.",
  [ST+"Grid.h", ST+"Grid.cpp"], [("Grid::set_coord", ST+"Grid.cpp")])

p("P20", "Operator database returns the registered operator of that type",
  "Registering an operator hands out the next number of its type (1, 2, ...); retrieving by type and number returns the very object registered under them, and retrieving by type alone the only object of that type, never one of another type or number. "
  "Retrieving a missing operator, an unused number, or by type alone when several are registered, raises an exception and leaves the registrations intact; emptying the database or destroying it destroys each owned operator exactly once.",
  ["histories"], "All histories of register/retrieve/empty over several types and ids.",
  "Tests only register once and retrieve.",
  [S+"OperatorDatabase.h"], [("OperatorDatabase::register_new_operator / retrieve_operator", S+"OperatorDatabase.h")])

p("P21", "Particle/mesh transfer is conservative and consistent",
  "Spreading particle values onto the mesh adds to each mesh cell exactly the sum over particles of value times the fraction of the particle's width overlapping the cell, so the total deposited equals the total of particle values for particles inside the mesh. "
  "Interpolating mesh values to a particle gives the overlap-weighted average of the cells its width covers, and neither transfer changes its source. "
  "This is for one-dimensional uniform meshes, positive widths and particles inside the mesh; a nonuniform mesh is rejected with an exception.",
  ["inputs"], "All particle positions, sizes, counts and mesh data.",
  "The test uses a few particles on a fixed mesh.",
  ["spatialops/particles/ParticleOperators.h"], [("ParticleToCell / CellToParticle", "spatialops/particles/ParticleOperators.h")])

p("P22", "Point transfer copies exactly the listed cells",
  "Transferring from a field to a point field copies, for each listed memory index (or each nonzero cell of a selecting field) in order, the value of that cell of the field, and the reverse transfer writes exactly the listed cells of the field with the corresponding point values. "
  "No other value of source or destination changes.",
  ["inputs"], "All fields, index lists (any order, repeats) and data.",
  "The test uses one list.",
  ["spatialops/pointfield/PointOperators.h"], [("PointToField / FieldToPoint", "spatialops/pointfield/PointOperators.h")])

p("P23", "Thread pool runs every accepted task exactly once",
  "Every task accepted by the thread pool before shutdown, and not removed by an explicit clear, is executed exactly once as long as the thread limit is at least one, for every interleaving of submitting, resizing and worker threads, and also when tasks schedule further tasks or are interrupted. "
  "A task is never run after it was cleared, pending() is exactly the number of queued tasks, and active() lies between the number of running tasks and the number of workers and is 0 at rest.",
  ["schedules", "histories"], "All interleavings of workers with schedule, resize, clear and throwing or rescheduling tasks.",
  "No test in the suite drives the pool beyond implicit use; lost wake-ups and double fetches need specific interleavings.",
  [S+"threadpool/threadpool/detail/pool_core.hpp", S+"threadpool/threadpool/detail/worker_thread.hpp"], [("execute_task / schedule", S+"threadpool/threadpool/detail/pool_core.hpp")])

p("P24", "Thread pool starts tasks in the order its policy promises",
  "With a single worker a FIFO pool starts tasks in submission order, a LIFO pool starts the most recently submitted pending task first, and a priority pool never starts a task while a pending task of higher priority waits. "
  "With several workers the same order governs the moments at which tasks are taken from the queue.",
  ["schedules", "histories"], "All submission sequences and interleavings.",
  "Not tested by the suite.",
  [S+"threadpool/threadpool/scheduling_policies.hpp", S+"threadpool/threadpool/detail/pool_core.hpp"], [("fifo/lifo/prio schedulers", S+"threadpool/threadpool/scheduling_policies.hpp")])

p("P25", "Thread pool size and active limit are honoured and converge",
  "No more tasks run at once than the pool has threads, nor more than the active-thread limit. "
  "After any sequence of resize calls, once running tasks end, the pool settles at exactly the last requested number of worker threads, and raising the limit lets waiting tasks start without further submissions.",
  ["schedules", "histories"], "All interleavings of resize, limit changes, submissions and task completions.",
  "Not tested by the suite; over-termination and missed wake-ups are pure races.",
  [S+"threadpool/threadpool/detail/pool_core.hpp", S+"threadpool/threadpool/size_policies.hpp", S+"ThreadPool.cpp"], [("pool_core::resize / resize_active / worker termination", S+"threadpool/threadpool/detail/pool_core.hpp")])

p("P26", "Thread pool wait and shutdown return exactly when work is done",
  "wait() returns only when no task is pending or running, wait(n) as soon as at most n tasks are pending or running, and neither blocks once its condition holds for good. "
  "Destroying the pool waits for all accepted tasks to finish and all workers to end, and no task runs after it.",
  ["schedules", "histories"], "All interleavings of waiting, submitting and shutting down threads.",
  "Not tested by the suite.",
  [S+"threadpool/threadpool/detail/pool_core.hpp", S+"threadpool/threadpool/shutdown_policies.hpp"], [("pool_core::wait / terminate_all_workers", S+"threadpool/threadpool/detail/pool_core.hpp")])

p("P27", "Counting semaphore never loses or invents permits",
  "For every interleaving, the number of completed waits never exceeds the initial count plus the posts made, and a thread blocks in wait only while no permit is available, so with enough posts every waiter returns.",
  ["schedules"], "All interleavings of any number of waiters and posters.",
  "Used only implicitly; a lost wake-up needs a specific interleaving.",
  [S+"Semaphore.h"], [("Semaphore::wait/post", S+"Semaphore.h")])

p("P28", "Global thread pool size interface is truthful",
  "The process-wide pools report a capacity and a number of active threads that follow the last successful requests, active threads never exceed capacity, and requests outside the admissible range are clamped to it (at least one thread, at most the capacity active). "
  "Resizing takes effect for subsequent parallel work without losing any.",
  ["histories", "schedules"], "All sequences of capacity and active-size requests, with work in between.",
  "Not tested by the suite.",
  [S+"ThreadPool.h", S+"ThreadPool.cpp", S+"SpatialOpsTools.h"], [("ThreadPoolResourceManager", S+"ThreadPool.cpp")])

p("P29", "Lagrange interpolation and derivative weights are exact on polynomials",
  "For every strictly increasing mesh, position and order below the number of points, the computed weights select order+1 contiguous mesh points around the position, as centred as the ends of the mesh allow, and reproduce every polynomial up to that order: interpolation weights give its value and derivative weights its derivative. "
  "Interpolating tabulated data at a tabulated point returns the tabulated value.",
  ["inputs"], "All meshes, positions and orders within the mesh.",
  "testLagrange checks a few functions on fixed meshes with tolerances.",
  [ST+"onedim/LagrangePoly.h", ST+"onedim/LagrangePoly.cpp"], [("LagrangeCoefficients", ST+"onedim/LagrangePoly.cpp")])

p("P30", "Field comparisons decide exactly the stated tolerance relation",
  "Comparing two fields, or a field and a constant, for equality holds exactly when every cell of the window satisfies the stated bound (absolute difference, difference relative to the first operand plus the given or default absolute floor, or units in the last place; the magnitude of the tolerance counts), and the not-equal forms are its exact negation. "
  "Fields of different shapes are rejected with an exception, and comparing changes nothing.",
  ["inputs"], "All field shapes, data (finite values) and tolerances, differing in any single cell.",
  "Tests perturb a few cells; a comparison that skips an edge cell or mishandles signs survives.",
  [ST+"FieldComparisons.h"], [("field_equal*", ST+"FieldComparisons.h")])

p("P31", "Concurrent acquisition and release of fields is race-free",
  "In thread-enabled builds, threads that concurrently acquire, use and release fields, masks and internally stored temporaries never share memory between live fields, and afterwards the pool's counts are those of some sequential order of the same operations. "
  "This holds for every interleaving.",
  ["schedules"], "All interleavings of acquisitions and releases from several threads.",
  "memtest2 runs a couple of threads on a natural schedule.",
  [ST+"SpatialFieldStore.h", ST+"MemoryPool.cpp", ST+"SpatialField.h"], [("store mutex", ST+"SpatialFieldStore.h")])

p("P32", "Numeric functions in expressions are applied cell by cell unchanged",
  "sin, cos, tan, exp, tanh, abs, sqrt, log, log10, erf, erfc, pow, min and max used in an expression give at each cell exactly what the standard library function gives for that cell's operands in that order. "
  "The same holds for every mixture of field, expression and constant operands.",
  ["programs", "inputs"], "All documented functions, operand kinds and data, with distinguishable operand order.",
  "NeboTest applies each function once to one pair of fields.",
  [S+"NeboOperators.h", S+"NeboRhs.h"], [("unary and binary function operators", S+"NeboOperators.h")])
p("P33", "Integer vectors and index triplets compute component by component",
  "Arithmetic, comparison, minimum and sum of integer 3-vectors, and the compile-time sum, difference, product, comparisons, absolute value, positive part, negation and component extraction of index triplets, act on each component independently and agree with integer arithmetic. "
  "Constructing a vector from an array, a std::vector or another vector, and writing one component, sets exactly the given components.",
  ["inputs"], "All component values; for triplets a family of mixed-sign pairs.",
  "Only exercised through symmetric or single-axis values.",
  [ST+"Numeric3Vec.h", ST+"IntVec.h", ST+"IndexTriplet.h"], [("Numeric3Vec operators", ST+"Numeric3Vec.h"), ("Add/Subtract/...", ST+"IndexTriplet.h")])
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    for x in P: assert len(x["title"]) <= 80, x["title"]
    print(len(P))
