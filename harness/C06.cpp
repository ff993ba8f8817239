// C06: linear algebra is re-entrant and leaves its operands alone.
//PARTS: la
#include "reentrant.h"
static void algebra(Run& R) { reentrant_run(R, {"la"}, 400000000ull); }
static void eigen(Run& R) { reentrant_run(R, {"la", "eig"}, 2000000000ull); }
static void eigen_only(Run& R) { reentrant_run(R, {"eig"}, 2000000000ull); }
Property& sim::property() {
    static Property P;
    P.id = "C06"; P.level = "exploration";
    P.rule = "Each run draws 2-4 callers and the vector, matrix, sparse-matrix, factorisation and eigenvalue operations they perform (on operands shared by all callers or on their own), OpenMP team sizes, heap policy and schedule from the run seed; every result is compared bit by bit with the same operation alone on one thread in a pristine process, and shared operands with their digest before. Non-trivial: at least one context switch inside library code; distinct by the hash of workload, schedule and results.";
    P.scenarios = {{"algebra", algebra, 40}, {"algebra_and_eigen", eigen, 4}, {"eigen", eigen_only, 1}};
    P.real_components = {"src/LinearAlgebra/Models/*.h", "src/LinearAlgebra/Solvers/{LU,Lanczos,CG}.h (built from /repo, instrumented)"};
    P.stub_components = {"libgomp (simulated OpenMP runtime)", "operator new/delete (simulated heap)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"sequentially consistent memory", "preemption points are the compiler-instrumented memory accesses and runtime calls of library code"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 25; P.thorough_seconds = 900;
    return P;
}
