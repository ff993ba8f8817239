// C16: imports and exports on different files at the same time, next to computations, do not disturb one another.
//PARTS: io io2 la asm mesh
#include "reentrant.h"
static void chunk(Rng& g) { int k = (int)g.below(4); if (k == 0) io().max_chunk = g.range(1, 30); else if (k == 1) io().max_chunk = g.range(31, 600); else if (k == 2) io().p_short = g.uniform(0.1, 1); if (g.chance(0.4)) io().p_eintr = g.uniform(0.05, 0.5); }
static void files(Run& R) { chunk(R.rng); reentrant_run(R, {"io"}, 400000000ull); }
static void mixed(Run& R) { chunk(R.rng); reentrant_run(R, {"io", "io", "la", "asm", "mesh"}, 400000000ull); }
Property& sim::property() {
    static Property P;
    P.id = "C16"; P.level = "exploration";
    P.rule = "Each run draws 2-4 callers importing CSV or VTK files or exporting VTK files (same file read by all, or different files), optionally next to computations, with a schedule that switches callers inside library code and inside transfers, and with short and interrupted transfers. Every result and every byte written is compared with the same call made alone. Distinct by the hash of workload, schedule and results; non-trivial: at least one context switch or disturbed transfer.";
    P.scenarios = {{"files", files, 3}, {"mixed", mixed, 1}};
    P.real_components = {"src/PrePost/Import/*.h, src/PrePost/Export/ExportToVTK.h, src/LinearAlgebra, src/FEM/Controller, src/PrePost/Mesher (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk)", "operator new/delete (simulated heap)", "thread scheduling (baton scheduler)", "std::cout (captured per caller)"};
    P.assumptions = {"sequentially consistent memory", "no two callers write the same file"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
