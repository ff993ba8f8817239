// C03: element evaluation is re-entrant.
//PARTS: eq1 eq2 eq3 eq4
#include "reentrant.h"
static void elements(Run& R) { reentrant_run(R, {"element"}, 400000000ull); }
Property& sim::property() {
    static Property P;
    P.id = "C03"; P.level = "exploration";
    P.rule = "Each run draws 2-4 callers and for each the element routines, shape functions, quadrature rules or element helpers it calls (same routine on shared inputs, same routine on different inputs, or different routines), element geometry, nodal fields, coefficients, degree-of-freedom order, heap policy and schedule from the run seed; every result is compared bit by bit with the same call made alone in a pristine process. Non-trivial: at least one context switch inside library code; distinct by the hash of workload, schedule and results.";
    P.scenarios = {{"elements", elements, 1}};
    P.real_components = {"src/FEM/Equation/*.h", "src/FEM/Controller/{ShapeFunction,GaussIntegration,NewtonCotesIntegration}.h", "src/LinearAlgebra/Models/{Vector,Matrix}.h (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"sequentially consistent memory", "preemption points are the compiler-instrumented memory accesses and runtime calls of library code"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 45; P.thorough_seconds = 900;
    return P;
}
