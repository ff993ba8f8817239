#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LA, FE, EQ, PP, OPT = "src/LinearAlgebra/", "src/FEM/Controller/", "src/FEM/Equation/", "src/PrePost/", "src/Optimize/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level, note, technique):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)), level, note, technique))
T = "deterministic simulation with fault injection: "
SC = " Assumes sequentially consistent memory and preemption at compiler-instrumented accesses and runtime calls; samples schedules, does not enumerate them."

prop("C01", "Sparse matrix-vector product is exact for every thread count and schedule",
 "The product of a compressed sparse matrix and a vector equals the row sums of its stored entries (up to rounding) for every matrix shape, sparsity pattern, modification history and OpenMP thread count, and is bit-for-bit the one-thread result whatever the threads' interleaving and however many threads the system actually grants. It leaves matrix and operand unchanged, and several callers may multiply the same matrix at the same time. The row-list matrix and conversions between the two formats give the same product.",
 ["schedules", "inputs", "configurations", "histories", "fault_sequences"], "every matrix (empty, rectangular, empty rows, 1 to 20000 rows), operand, team size 1..16, granted team smaller than requested, interleaving of the team, number of concurrent callers, and sequence of entry modifications between products",
 "The tests run with OMP_NUM_THREADS=1 on a handful of fixed matrices, so no schedule and no team other than one thread is ever executed.",
 [LA + "Models/CSR.h", LA + "Models/LILCSR.h"], [("parallel loop over rows with a row-private accumulator", LA + "Models/CSR.h operator*(std::vector)"), ("conversion row-list <-> compressed", LA + "Models/CSR.h CSR(LILCSR), LILCSR.h LILCSR(CSR)")],
 ["value of matrix * vector"], "exploration", "Seeded search: about 10^4 (quick) to 10^6 (thorough) simulated products on a simulated OpenMP runtime, compared with an independent row-sum model and the one-thread product." + SC, T + "seeded OpenMP team scheduling, team shortages and concurrent callers, against a row-sum reference model")
prop("C02", "Iterative solvers: thread-independent, honest about failure, bounded",
 "For every linear system, tolerance, iteration limit, thread count, schedule and number of concurrent solves, an iterative solver returns bit for bit the solution and message it produces alone on one thread, ends within a number of steps bounded by the iteration limit, and changes neither matrix, preconditioner nor right-hand side. When it prints no failure message the true residual of what it returned is within the requested relative tolerance; conjugate-gradient type solvers do converge on well-conditioned symmetric positive definite systems. The eigensolvers likewise return the same eigenpairs under every thread count and schedule.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "symmetric positive definite and non-symmetric diagonally dominant systems, tolerances 1e-1..1e-11, iteration limits from 1, team sizes 1..8, granted teams smaller than requested, 1..3 concurrent callers sharing a system or not",
 "Tests solve a few fixed systems on one thread to convergence; failure paths, other thread counts and concurrent solves are never executed.",
 [LA + "Solvers/CG.h", LA + "Solvers/Lanczos.h"], [("convergence test and failure message", LA + "Solvers/CG.h"), ("inverse Lanczos/invert iteration", LA + "Solvers/Lanczos.h")],
 ["returned vectors", "printed messages"], "exploration", "Seeded search over systems, schedules and callers; true residual recomputed in extended precision from an independent matrix model; BiCGSTAB-type near-breakdown confirmed on several right-hand sides before it is reported." + SC, T + "seeded OpenMP/caller scheduling with step budgets, against one-thread solo runs and an independent residual model")
prop("C03", "Element evaluation is re-entrant",
 "Evaluating any element matrix, element vector, shape function, quadrature rule or element post-processing quantity gives, bit for bit, the same result whether the caller is alone in a fresh process, one of several callers evaluating the same or different elements at the same time under any interleaving, or has evaluated anything else before. Inputs shared by several callers (coordinates, connectivity, nodal fields) are not modified.",
 ["schedules", "inputs", "histories"], "every element routine of every equation family, every interleaving of 2..4 callers, shared or separate inputs, every order of earlier calls",
 "Tests evaluate elements from one thread in one fixed order, so hidden shared or left-over state cannot show.",
 [EQ + f for f in ["Advection.h", "Beam.h", "General.h", "HeatTransfer.h", "Homogenization.h", "NavierStokes.h", "Numeric.h", "PlaneStrain.h", "PlaneStress.h", "ReactionDiffusion.h", "Shell.h", "Solid.h", "Stokes.h", "Truss.h"]] + [FE + "ShapeFunction.h", FE + "GaussIntegration.h", FE + "NewtonCotesIntegration.h"],
 [("element routines are pure functions of their arguments; shape functions and quadrature tables are read-only", EQ + "*.h, " + FE + "ShapeFunction.h, GaussIntegration.h")], ["out-parameters and return values of the element routines"],
 "exploration", "Every routine of every equation header takes part; each result is compared bit by bit with the same call made alone in a pristine forked process." + SC, T + "seeded interleaving of concurrent callers inside real element code, against solo executions in a pristine process")
prop("C04", "Mesh generation is re-entrant and independent of query order",
 "A mesh generator constructed with given dimensions returns, bit for bit, the same nodes, elements, edges, prescribed-value lists and selections whether it is used alone, by several callers at the same time, next to other generators of the same or another kind, or queried repeatedly and in any order.",
 ["schedules", "inputs", "histories"], "all mesh generators, all dimensions, every interleaving of 2..4 callers using their own or one common generator object, every order and repetition of queries",
 "Tests build one mesh per process and query it once in a fixed order.",
 [PP + "Mesher/" + f for f in ["SquareMesh.h", "AnnulusMesh.h", "SquareAnnulusMesh.h", "SquareCircleAnnulusMesh.h", "GrandStructure.h", "Delaunay.h"]],
 [("generators keep their state in the object and queries do not change it", PP + "Mesher/*.h")], ["return values of the generator queries"],
 "exploration", "All eight generators; solo execution in a pristine process is the oracle." + SC, T + "seeded interleaving of concurrent queries, against solo executions in a pristine process")
prop("C05", "Optimisers and filters: no cross-talk between problems, limits respected",
 "Several optimisations (optimality criteria, MMA, CONLIN) and density filters that advance side by side, step by step or on concurrent callers, each follow bit for bit the trajectory they follow alone. After every update each design variable lies within its bounds and move limits. Asking whether an optimiser has converged, or evaluating a filter, changes neither the inputs nor the trajectory.",
 ["schedules", "inputs", "histories"], "convex problems of random size, number of constraints and optimiser parameters; every order in which 2..4 optimisations advance; every interleaving of concurrent callers",
 "Tests run one optimisation per process and compare its end result; two optimisers never coexist.",
 [OPT + "Solver/OC.h", OPT + "Solver/MMA.h", OPT + "Solver/CONLIN.h", OPT + "Filter/DensityFilter.h", OPT + "Filter/HeavisideFilter.h", OPT + "Filter/SensitivityFilter.h"],
 [("history (previous iterates, asymptotes) kept per object", OPT + "Solver/MMA.h, CONLIN.h"), ("clamping to bounds and move limit", OPT + "Solver/OC.h, MMA.h, CONLIN.h")], ["updated design variables", "convergence answers", "filtered values"],
 "exploration", "Trajectories are compared bit by bit with the same optimisation alone in a pristine process; limits are checked after every step." + SC, T + "seeded order of optimisation steps and caller interleaving, against solo trajectories plus limit invariants after every step")
prop("C06", "Linear algebra operations are re-entrant and leave operands alone",
 "Vector, dense-matrix and sparse-matrix operations, factorisations and eigenvalue computations give bit for bit the same result whether called alone or by several callers at once on shared or separate operands, with any OpenMP thread count and interleaving, and whatever was computed before. Operands that are only read are left unchanged.",
 ["schedules", "inputs", "histories", "configurations"], "all public operations, 2..4 callers, shared and separate operands, team sizes 1..2 per caller, every interleaving",
 "Tests use one thread and one order of calls.",
 [LA + "Models/Vector.h", LA + "Models/Matrix.h", LA + "Models/CSR.h", LA + "Models/LILCSR.h", LA + "Solvers/LU.h", LA + "Solvers/Lanczos.h", LA + "Solvers/CG.h"],
 [("operations work on their operands and locals only", LA + "Models/*.h, " + LA + "Solvers/*.h")], ["return values and operands"],
 "exploration", "Solo execution in a pristine process is the oracle; digests of shared operands before and after." + SC, T + "seeded interleaving of concurrent callers and OpenMP teams, against solo executions in a pristine process")
prop("C07", "Assembly is exact for every element arrival order and boundary-condition history",
 "Whatever order the scheduler delivers element contributions in, and however many analyses assemble from the same mesh and boundary conditions at once, the assembled stiffness and load equal the sum of the element contributions over free unknowns, with prescribed values moved to the load, within rounding. Every history of prescribing, periodic pairing, renumbering and removing boundary conditions yields the unknown numbering that history defines, and writing a solution back changes free values only. Assembling leaves its inputs unchanged.",
 ["schedules", "inputs", "histories"], "random connectivity, 1..3 unknowns per node, mixed element arities, all assembly overloads, Dirichlet/periodic/Neumann conditions, every arrival order from 1..4 producers, 2..4 concurrent analyses, histories of up to 12 boundary-condition calls",
 "Each test assembles one mesh in file order from one thread with one boundary-condition call sequence.",
 [FE + "Assembling.h", FE + "BoundaryCondition.h", LA + "Models/LILCSR.h", LA + "Models/CSR.h"], [("scatter of element matrices through the unknown table", FE + "Assembling.h"), ("unknown table maintenance", FE + "BoundaryCondition.h")],
 ["assembled matrix and load entries", "unknown table", "nodal values after write-back"], "exploration", "Independent dense model of the sums and of the unknown table." + SC, T + "seeded element arrival order, concurrent analyses and boundary-condition histories, against a dense reference model")
prop("C08", "Containers survive allocation failure at any point",
 "When memory runs out at any allocation during an operation on vectors, dense matrices or sparse matrices, the operation reports it as an out-of-memory exception and every container still holds exactly what it held before. Nothing is leaked, freed twice or accessed out of bounds, and the same operation succeeds when repeated after memory is available again.",
 ["fault_sequences", "histories", "inputs"], "histories of container operations (construction, copy, self-assignment, arithmetic, stacking, slicing, entry modification, conversion) with every allocation of every operation refused in turn, including empty and default-constructed containers",
 "No test makes an allocation fail.",
 [LA + "Models/Vector.h", LA + "Models/Matrix.h", LA + "Models/CSR.h", LA + "Models/LILCSR.h"], [("acquire-then-commit in assignment and insertion", LA + "Models/Vector.h, Matrix.h operator=; CSR.h, LILCSR.h set")],
 ["container contents", "exceptions", "heap"], "fault_enumeration", "Within each run every allocation point of every operation of the history is refused in turn; histories and operands are sampled. The simulated heap also detects leaks, double and invalid frees and accesses to freed or out-of-bounds memory.", T + "allocation-failure injection at every allocation point of sampled operation histories, against map/array reference models")
prop("C09", "Computations survive allocation failure at any point",
 "When memory runs out at any allocation inside any computation (element, mesh, filter, optimiser, algebra, solver, assembly), alone or with other callers running, the caller gets either an out-of-memory exception or the correct result. Nothing is leaked or corrupted, the inputs are unchanged, and the same call made again with memory available gives the correct result.",
 ["fault_sequences", "inputs", "schedules"], "every library computation with random inputs, each of its allocations refused in turn (single failures, or exhaustion from that point on), and random failures while 2..3 callers run concurrently",
 "No test makes an allocation fail.",
 ["src/"], [("no function swallows the exception; temporaries are owned by containers", "src/**/*.h")], ["exceptions, results, inputs, heap"],
 "fault_enumeration", "All allocation points of a call up to 48 (thorough 400), a seeded sample beyond; calls and inputs are sampled.", T + "allocation-failure injection at every allocation point of sampled computations, against fault-free solo results")
prop("C10", "CSV import under faults ends, reports failure, and invents nothing",
 "When a CSV file cannot be opened, stops delivering at any byte, delivers transient errors, ends early or memory runs out, each importer ends within a bounded number of steps and never reports success unless it delivered every record of what could be read. Whatever it leaves in the caller's containers is what the caller already had plus records (or the readable part of the record the cut goes through) that the file contains. After the fault has gone the same import succeeds completely, and nothing is leaked.",
 ["fault_sequences", "inputs", "crash_points"], "six importers (nodes, elements, Dirichlet, Neumann, initial and periodic conditions), every byte position of EIO/EISDIR/early end, random transient read/open/close errors, every allocation refused, all combined with chunked and interrupted delivery",
 "Tests read small complete files from a healthy disk.",
 [PP + "Import/ImportFromCSV.h"], [("stream state checked before and after each record", PP + "Import/ImportFromCSV.h")], ["return value", "caller's containers", "exceptions"],
 "fault_enumeration", "Fault position sampled over every byte of sampled files, all allocation points up to 60 (thorough 400) per file; independent parser as the model. Real libstdc++ streams run above a simulated disk.", T + "simulated disk with errors at chosen bytes, torn files and allocation failures, against an independent CSV model")
prop("C11", "CSV import delivers exactly the file's records under any delivery",
 "For every well-formed CSV file, the importers return exactly its records, in order, appended to what the caller already has, independently of how the operating system splits the file into reads, of interrupted reads, of line endings, blank lines and a missing final newline, and of other callers importing at the same time. The file is not modified.",
 ["inputs", "schedules", "fault_sequences"], "well-formed files of any record count and number format, including lines and files longer than a stream buffer; chunk sizes from one byte, short and interrupted reads; 2..4 concurrent importers",
 "Tests read a few small files delivered in one read.",
 [PP + "Import/ImportFromCSV.h"], [("line and token extraction", PP + "Import/ImportFromCSV.h")], ["return value", "caller's containers"],
 "exploration", "Independent parser as the model; delivery and schedules are seeded." + SC, T + "seeded delivery (chunking, short reads, EINTR) and caller interleaving on a simulated disk, against an independent CSV model")
prop("C12", "VTK export: only prefixes reach the disk and failure is visible",
 "Whatever happens while a VTK file is being written (short or interrupted writes, write errors, a full disk, power loss at any byte, out of memory), what is on the disk is a prefix of the file a fault-free export writes, and if any of it is missing the stream the caller passed in is in a failed state after closing or an out-of-memory exception was thrown. Short and interrupted writes alone change nothing.",
 ["fault_sequences", "crash_points", "inputs"], "every model (empty to several hundred nodes, all element and field kinds), every byte position of EIO/ENOSPC/power loss, limited capacity, random write/open/close errors, every allocation refused",
 "Tests write to a healthy disk and compare final files.",
 [PP + "Export/ExportToVTK.h"], [("all output goes through the caller's stream in order", PP + "Export/ExportToVTK.h")], ["bytes on the disk", "stream state"],
 "fault_enumeration", "Crash and error positions sampled over every byte of sampled exports; all allocation points up to 40 (thorough 300). Oracle: bytes of a fault-free export.", T + "simulated disk with power loss, ENOSPC/EIO at chosen bytes and allocation failures, prefix and visibility oracles")
prop("C13", "VTK import of a torn file returns only rows the file contains",
 "When a VTK file was cut at any byte by a crash or full disk, or reading fails at any byte, or the file cannot be opened, the importers end within a bounded number of steps and every row they return is a row the readable part of the file contains, in order; whole rows of the section asked for are not lost on the first query. When memory runs out they additionally leak nothing and work again afterwards.",
 ["crash_points", "fault_sequences", "inputs", "histories"], "files of the real exporter and of another writer cut at every byte position, EIO/EISDIR/premature end at every position, up to five queries per importer object in any order, both importers, every allocation refused",
 "Tests read complete files.",
 [PP + "Import/ImportFromVTK.h", PP + "Import/ImportFromVTK2.h", PP + "Export/ExportToVTK.h"], [("row extraction checked against the stream state", PP + "Import/ImportFromVTK.h, ImportFromVTK2.h")], ["returned nodes, elements and fields"],
 "fault_enumeration", "Cut positions biased to section headers and rows, sampled over all bytes; independent scan of the surviving bytes as the oracle.", T + "crash-restart of the real exporter, torn files and read errors on a simulated disk, against an independent reading of the surviving bytes")
prop("C14", "What VTK export writes, VTK import reads back, however bytes travel",
 "Every model exported to VTK (nodes, element connectivity, scalar and vector point and cell fields, of zero to hundreds of entries) is read back equal to what was written, for every way the operating system splits or interrupts the transfers, for every order and repetition in which sections are asked for, and with several writers and readers on different files at once. A file laid out differently by another writer is read correctly too.",
 ["inputs", "histories", "schedules", "fault_sequences"], "random models, both importers, any order of queries, chunk sizes from one byte, short and interrupted transfers, 2..3 writer/reader pairs at once",
 "Tests compare exported files of a few models with stored ones and never read them back.",
 [PP + "Export/ExportToVTK.h", PP + "Import/ImportFromVTK.h", PP + "Import/ImportFromVTK2.h"], [("section layout and counts", PP + "Export/ExportToVTK.h"), ("section search and row extraction", PP + "Import/ImportFromVTK.h, ImportFromVTK2.h")], ["returned nodes, elements and fields"],
 "exploration", "Values are exact in the exporter's six digits so equality is exact; one importer reads forward, so a section behind the reading position may need asking twice (as the code is today)." + SC, T + "seeded transfers and query histories on a simulated disk, round-trip oracle")
prop("C15", "Results do not depend on memory contents, addresses, history, clock or entropy",
 "Every computation, import and export gives bit for bit the same result for the same inputs, whatever uninitialised heap or stack memory contains, wherever objects are placed, whatever calls came before (including calls that failed for lack of memory), and whatever the clock and random sources return.",
 ["configurations", "histories", "inputs", "fault_sequences"], "every library operation, several simulated processes with different heap garbage, layout and reuse, stack garbage, clock and entropy, histories of up to six earlier calls with injected allocation failures",
 "Tests run each program once in one environment; a result read from uninitialised memory is usually zero there.",
 ["src/"], [("every value is initialised before use; no state outlives a call except in objects", "src/**/*.h")], ["everything an operation returns, writes or prints"],
 "exploration", "Bit-for-bit comparison between simulated processes that differ only in the environment.", T + "seeded heap/stack garbage, addresses, clock, entropy and call histories, bit-for-bit comparison between simulated processes")
prop("C16", "Concurrent imports and exports do not disturb each other or computations",
 "Callers importing CSV or VTK files and exporting VTK files at the same time, reading the same file or working on different files, optionally next to computations, each get bit for bit the result, printed text and output bytes they get alone, under every interleaving including switches in the middle of a transfer and short or interrupted transfers.",
 ["schedules", "inputs", "fault_sequences"], "2..4 callers, all importers and exporters, computations from algebra, assembly and meshing, every interleaving, chunked and interrupted transfers",
 "Tests use one thread and one file at a time.",
 [PP + "Import/ImportFromCSV.h", PP + "Import/ImportFromVTK.h", PP + "Import/ImportFromVTK2.h", PP + "Export/ExportToVTK.h"], [("importers and exporters keep their state in objects and locals", PP + "Import/*.h, " + PP + "Export/*.h")], ["results, printed text, output bytes"],
 "exploration", "Solo execution in a pristine process is the oracle." + SC, T + "seeded interleaving of concurrent file operations and computations on a simulated disk, against solo executions")

prop("C17", "Whole analyses are reproducible end to end and fail visibly",
 "A whole analysis (mesh or CSV model, boundary conditions, assembly, solution, time steps, Newton iterations or optimisation, exported VTK files) shows bit for bit the same fields, printed text and files whether it runs alone, next to other analyses or after them in the same process, with any number of OpenMP threads and any interleaving, and whatever memory contents, clock and transfer sizes are. When a read, write or allocation fails during it, the failure is visible (failed stream, refused input or out-of-memory exception); no file that is reported complete differs from the undisturbed one, and a repetition after the failure gives the undisturbed results.",
 ["schedules", "inputs", "configurations", "histories", "fault_sequences"], "miniature versions of the sample programs' pipelines for every equation family and optimiser, 1..3 analyses at once or in sequence, team sizes 1..8, every interleaving, disk errors, short and interrupted transfers, full disks, refused allocations",
 "The sample programs run each analysis once, alone, on one thread, in an environment in which nothing fails.",
 ["src/"], [("the stages of an analysis share no hidden state and report failure to the stage after them", FE + "Assembling.h, " + LA + "Solvers/CG.h, " + PP + "Import/ImportFromCSV.h, " + PP + "Export/ExportToVTK.h")], ["fields, printed text and files of the analysis", "stream states and exceptions"],
 "exploration", "Each analysis is compared bit by bit with the same one alone in a pristine process." + SC, T + "seeded scheduling, disk and allocation faults over whole analyses, against undisturbed executions in a pristine process")
prop("C18", "An analysis cut short by power loss continues from the newest complete exported file",
 "When the power fails at any moment of a time-stepping analysis that exports its state every step, a user who restarts from the newest file that can be read completely continues exactly as an undisturbed analysis continues from that state: the imported mesh and fields are those that were exported, later files come out byte for byte the same, and a file that was only partly on the disk never passes for a complete one. This holds over several power losses in a row.",
 ["crash_points", "inputs", "histories", "fault_sequences"], "four kinds of time-stepping analyses on random meshes, power loss after any byte of any file, unwritten data lost or torn, up to several losses in a row, any transfer sizes",
 "Tests never read back what they export, and no test ends before its last file is written.",
 [PP + "Export/ExportToVTK.h", PP + "Import/ImportFromVTK.h", PP + "Import/ImportFromVTK2.h"], [("sections carry counts the importer can hold the file against", PP + "Export/ExportToVTK.h, " + PP + "Import/ImportFromVTK.h")], ["imported state", "files written after the restart"],
 "exploration", "Reference files are those of the undisturbed analysis continued from the exported (six-digit) state; what is complete is decided by an independent reader of the bytes left on the simulated disk.", T + "seeded power loss and torn writes on a simulated disk with restart, against the undisturbed continuation")
prop("C19", "Calls that fail or pass through user code leave nothing behind",
 "A user function (load, boundary value, level, objective) called by the library may throw or call the library itself: an exception reaches the caller unchanged, nested calls return what they return alone, and after either every later call gives bit for bit what it gives alone. An optimiser update that fails for lack of memory can be repeated and then continues on the trajectory it would have had.",
 ["histories", "fault_sequences", "schedules", "inputs"], "every library routine that takes a user function, exceptions at any of its calls, nested calls to any other routine, several callers with different functions, out-of-memory at any allocation of an optimiser update or file operation",
 "User functions in the tests neither throw nor call the library, and no test sees an allocation fail.",
 ["src/"], [("user functions are called with no shared or half-updated state", FE + "BoundaryCondition.h, " + EQ + "*.h, " + OPT + "Solver/OC.h"), ("history is updated only when an update has succeeded", OPT + "Solver/MMA.h, CONLIN.h")], ["exceptions, return values and trajectories"],
 "exploration", "Solo execution in a pristine process is the oracle." + SC, T + "seeded exceptions, nested calls and allocation failures inside user functions and updates, against solo executions in a pristine process")
prop("C20", "A copy of an optimiser, filter or mesher is an independent checkpoint",
 "A copy of an optimiser, filter or mesh generator taken at any moment continues exactly as the original would have continued from there, whatever is done meanwhile to the original or to other copies, in the same caller or in others, and after the original is gone. Assigning a checkpoint back takes the object back to that moment; a copy that fails for lack of memory leaves the original as it was.",
 ["histories", "schedules", "fault_sequences", "inputs"], "MMA, CONLIN, density, Heaviside and sensitivity filters, all mesh generators; every moment of copying, copy, move and assignment, 1..4 copies advancing in any order or on concurrent callers, refused allocations while copying",
 "No test copies one of these objects.",
 [OPT + "Solver/MMA.h", OPT + "Solver/CONLIN.h", OPT + "Filter/DensityFilter.h", OPT + "Filter/HeavisideFilter.h", OPT + "Filter/SensitivityFilter.h", PP + "Mesher/SquareMesh.h", PP + "Mesher/Delaunay.h"], [("value semantics: an object owns all of its state", OPT + "Solver/*.h, " + OPT + "Filter/*.h, " + PP + "Mesher/*.h")], ["everything the objects return after the copy"],
 "exploration", "Replaying the same uses on a fresh object, alone in a pristine process, is the oracle." + SC, T + "seeded checkpoint/rollback histories, caller interleaving and allocation failures, against replay on a fresh object")

exec(open(os.path.join(H, "tools", "more.py")).read()) if os.path.exists(os.path.join(H, "tools", "more.py")) else None

NA = []
def na(id, title, statement, text, files, where, reason):
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=["inputs"], text=text), why_tests_cant="Tests evaluate a few fixed inputs; the statement is about all of them.",
        anchors=dict(files=files, mechanism=[dict(name="formula", where=where)], hook_needed=None)), reason))
PURE = "A pure function of its input: no schedule, clock, I/O, randomness, crash or fault enters the statement, so simulation has nothing to decide; only input generation or proof could. "
na("N01", "Element matrices have the symmetry and null space of their physics", "Stiffness and mass matrices of self-adjoint problems are symmetric positive semi-definite, and rigid-body motions or constant fields produce no force.", "all valid element geometries and materials", [EQ], EQ + "*.h", PURE + "Re-entrancy (C03), failure behaviour (C09) and environment independence (C15) of the same code are claimed.")
na("N02", "Shape functions partition unity and quadrature is exact to its order", "Shape functions sum to one and interpolate their nodes; each quadrature rule integrates polynomials up to its order exactly.", "all points of the reference element", [FE + "ShapeFunction.h", FE + "GaussIntegration.h", FE + "NewtonCotesIntegration.h"], FE + "*.h", PURE)
na("N03", "Generated meshes are valid", "Every generated mesh covers its domain with consistently oriented, non-overlapping, conforming elements.", "all dimensions and polygons", [PP + "Mesher/"], PP + "Mesher/*.h", PURE + "Re-entrancy and query-order independence are claimed as C04.")
na("N04", "Filter sensitivities are the exact adjoint of the filter", "The sensitivity map of each density filter is the transpose Jacobian of its value map.", "all meshes, weights and densities", [OPT + "Filter/"], OPT + "Filter/*.h", PURE)
na("N05", "Optimisers converge to the optimum of convex problems", "On convex separable problems the optimisers' iterates approach the constrained minimum.", "all convex problems", [OPT + "Solver/"], OPT + "Solver/*.h", PURE + "Cross-talk and limits are claimed as C05.")
na("N06", "Dense factorisations and eigen decompositions are accurate", "Dense LU solves and small eigenproblem routines return backward-stable results.", "all well-conditioned matrices", [LA + "Solvers/LU.h", LA + "Models/Matrix.h"], LA + "Solvers/LU.h", PURE + "Their re-entrancy and failure behaviour are claimed as C06 and C09.")

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p[0]) + "\n")
    for p in NA: f.write(json.dumps(p[0]) + "\n")
m = dict(version=1, setup_cmd="true",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"] + " --thorough", technique=t, level=l, level_note=n) for p, l, n, t in P],
    not_applicable=[dict(property=p["id"], reason=r) for p, r in NA],
    notes="No hooks in /repo: the seams are the compiler's memory-access instrumentation, operator new/delete, the OpenMP runtime interface and the C library's file calls, all replaced at link time in the checks' own builds. Replay: python3 check.py <id> --replay <file>.")
with open(os.path.join(H, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
