// C04: mesh generation is re-entrant and repeatable.
//PARTS: mesh
#include "reentrant.h"
static void meshes(Run& R) { reentrant_run(R, {"mesh"}, 400000000ull); }
Property& sim::property() {
    static Property P;
    P.id = "C04"; P.level = "exploration";
    P.rule = "Each run draws 2-4 callers, the mesh generators they use (own mesher or one mesher queried by several callers), their dimensions, the order of queries (nodes, elements, edges, fixed lists, selections), heap policy and schedule from the run seed; every answer is compared bit by bit with the same query made alone in a pristine process. Non-trivial: at least one context switch inside library code; distinct by the hash of workload, schedule and results.";
    P.scenarios = {{"meshes", meshes, 1}};
    P.real_components = {"src/PrePost/Mesher/*.h", "src/LinearAlgebra/Models/Vector.h (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"sequentially consistent memory", "preemption points are the compiler-instrumented memory accesses and runtime calls of library code"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
