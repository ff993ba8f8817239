// C07: assembly and boundary conditions: any arrival order of elements, any number of analyses at once.
//PARTS: asm
#include <algorithm>
#include "reentrant.h"
#include "asmenv.h"
static void reentrant(Run& R) { reentrant_run(R, {"asm"}, 400000000ull); }
static void compare(const Asm& a, const LILCSR<double>& K, CSR<double>& C, const std::vector<double>& F) {
    if ((int)F.size() != a.deg) fail("wrong-result", "load vector has %zu entries for %d unknowns", F.size(), a.deg);
    for (int i = 0; i < a.deg; i++) {
        for (int j = 0; j < a.deg; j++) {
            double v = K.get(i, j), w = C.get(i, j), tol = 1e-12 * a.Ka[i][j];
            if (!(std::fabs(v - a.K[i][j]) <= tol)) fail("wrong-result", "stiffness (%d,%d) is %.17g, the sum of the element contributions is %.17g", i, j, v, a.K[i][j]);
            if (w != v) fail("wrong-result", "compressed stiffness (%d,%d) is %.17g, the assembled one %.17g", i, j, w, v);
        }
        if (!(std::fabs(F[i] - a.F[i]) <= 1e-12 * a.Fa[i])) fail("wrong-result", "load %d is %.17g, the sum of the contributions is %.17g", i, F[i], a.F[i]);
    }
}
// element matrices computed by several producers arrive in an order the scheduler decides
static void arrival(Run& R) {
    Rng& g = R.rng; heap_policy(g.next());
    std::shared_ptr<Asm> a = big(g) ? gen_asm(g, 60, 60) : gen_asm(g, 9, 8); int np = g.range(1, 4); note("%d elements from %d producers, %d unknowns", (int)a->pieces.size(), np, a->deg);
    Out in0; digest(*a, in0);
    LILCSR<double> K(a->deg, a->deg); std::vector<double> F(a->deg, 0.0);
    std::vector<int> order(a->pieces.size()); for (size_t i = 0; i < order.size(); i++) order[i] = (int)i; for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
    std::vector<int> snap; if (g.chance(0.4)) for (int i = 0; i < 8; i++) snap.push_back(g.chance(0.3));   // converted (and used) half-way through, as in a staged analysis
    size_t neu = g.below(order.size() + 1), done = 0; bool busy = false;
    default_sched(g);
    // each producer takes the next element and assembles it; two callers must not assemble into one matrix at the
    // same time (the library does not promise that), so the harness serialises the call itself
    for (int p = 0; p < np; p++) spawn([&, p] {
        set_threads(1 + p % 3);
        for (;;) {
            yield_point(); if (busy) continue;
            if (done >= order.size()) break;
            busy = true; size_t k = done++;
            if (k == neu) { Lib l; Assembling(F, a->neu, a->n2g); }
            Piece q = a->pieces[order[k]]; yield_point();
            { Lib l; assemble_piece(*a, q, K, F); }
            if (snap.size() && snap[k % snap.size()] && enabled((int)k)) { Lib l; CSR<double> part(K); NoLib nl; for (int i = 0; i < a->deg; i++) for (int j = 0; j < a->deg; j++) if (part.get(i, j) != K.get(i, j)) fail("wrong-result", "half-way through the assembly the compressed stiffness (%d,%d) is %.17g, the assembled one %.17g", i, j, part.get(i, j), K.get(i, j)); }
            mix_hash(order[k] * 8 + p); busy = false;
        }
    });
    join_all();
    if (neu >= order.size()) { Lib l; Assembling(F, a->neu, a->n2g); }
    Out in1; digest(*a, in1); if (in0 != in1) fail("input-changed", "assembling changed its inputs: %s", diff(in0, in1).c_str());
    CSR<double> C(K); compare(*a, K, C, F);
    // disassembling: free values come from the result, prescribed ones stay
    std::vector<double> res; for (int i = 0; i < a->deg; i++) res.push_back(g.uniform(-1, 1)); std::vector<Vector<double> > u = a->u; { Lib l; Disassembling(u, res, a->n2g); }
    for (int i = 0; i < a->nn; i++) for (int j = 0; j < a->nd; j++) { double w = a->mg[i][j] < 0 ? a->ug[i][j] : res[a->mg[i][j]]; if (u[i](j) != w) fail("wrong-result", "after disassembling node %d dof %d is %.17g, expected %.17g", i, j, u[i](j), w); }
    if (a->deg == 0) probe("everything_prescribed"); if (np > 1) probe("several_producers");
}
// several analyses at once on one mesh and one set of boundary conditions
static void analyses(Run& R) {
    Rng& g = R.rng; heap_policy(g.next());
    std::shared_ptr<Asm> a = big(g) ? gen_asm(g, 50, 40) : gen_asm(g, 7, 5); int n = g.range(2, 4); note("%d analyses at once, %d unknowns", n, a->deg);
    Out in0; digest(*a, in0); default_sched(g);
    for (int t = 0; t < n; t++) spawn([&, t] { if (!enabled(t)) return; set_threads(1 + t % 2); Lib l; LILCSR<double> K(a->deg, a->deg); std::vector<double> F(a->deg, 0.0); for (size_t k = 0; k < a->pieces.size(); k++) assemble_piece(*a, a->pieces[(k + t) % a->pieces.size()], K, F); Assembling(F, a->neu, a->n2g); CSR<double> C(K); NoLib nl; compare(*a, K, C, F); });
    join_all(); Out in1; digest(*a, in1); if (in0 != in1) fail("input-changed", "assembling changed its shared inputs: %s", diff(in0, in1).c_str());
    probe("concurrent_analyses");
}
// histories of boundary-condition calls against a model of the degree-of-freedom table
static void history(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); int nn = size_of(g, 1, 10, 200), nd = g.range(1, 4), nops = g.range(1, 12); note("history of %d boundary-condition calls on %d nodes x %d", nops, nn, nd);
    DofModel m; m.t.assign(nn, std::vector<int>(nd, 0)); std::vector<std::vector<int> > t = m.t; std::vector<Vector<double> > u(nn, Vector<double>(nd)); std::vector<std::vector<double> > mu(nn, std::vector<double>(nd, 0.0)); default_sched(g);
    for (int k = 0; k < nops; k++) {
        int what = (int)g.below(6); Fixed f; int nf = g.range(0, nn * nd); for (int i = 0; i < nf; i++) if (g.chance(0.3)) f.push_back({{(int)g.below(nn), (int)g.below(nd)}, g.uniform(-3, 3)});
        std::vector<std::pair<int, int> > pr = gen_pairs(g, nn);
        std::vector<double> rnd; for (int i = 0; i < nn * nd; i++) rnd.push_back(g.uniform(-1, 1));
        bool wipe = g.chance(0.4); if (!enabled(k)) continue;
        if (what == 0) { { Lib l; SetDirichlet(u, t, f); } m.dirichlet(f); for (auto& e : f) mu[e.first.first][e.first.second] = e.second; }
        else if (what == 1) { { Lib l; SetDirichlet(t, f); } m.dirichlet(f); }
        else if (what == 2) { int a; { Lib l; a = Renumbering(t); } int b = m.renumber(); if (a != b) fail("wrong-result", "renumbering counted %d unknowns, there are %d", a, b); }
        else if (what == 3) { int a; { Lib l; a = SetPeriodic(t, pr); } int b = m.periodic(pr); if (a != b) fail("wrong-result", "periodic conditions counted %d unknowns, there are %d", a, b); }
        else if (what == 4) { if (!wipe) continue; { Lib l; RemoveBoundaryConditions(t); } m.clear(); }
        else { int mx = 0; for (auto& r : m.t) for (int d : r) mx = std::max(mx, d + 1); std::vector<double> res(rnd.begin(), rnd.begin() + std::min((size_t)mx, rnd.size())); res.resize(mx); { Lib l; Disassembling(u, res, t); } for (int i = 0; i < nn; i++) for (int j = 0; j < nd; j++) if (m.t[i][j] >= 0) mu[i][j] = res[m.t[i][j]]; }
        if (t != m.t) fail("wrong-result", "degree-of-freedom table differs from the model after call %d of kind %d", k, what);
        for (int i = 0; i < nn; i++) for (int j = 0; j < nd; j++) if (u[i](j) != mu[i][j]) fail("wrong-result", "node %d dof %d is %.17g, expected %.17g after call %d of kind %d", i, j, u[i](j), mu[i][j], k, what);
        for (auto& r : t) for (int d : r) mix_hash(d); if (k) mark(); yield_point();
    }
}
Property& sim::property() {
    static Property P;
    P.id = "C07"; P.level = "exploration";
    P.rule = "Each run draws a mesh connectivity, degrees of freedom, boundary conditions (Dirichlet, periodic, Neumann), element matrices and vectors, the assembly overloads used, and a schedule: producers deliver elements in an order the scheduler decides; several analyses assemble at once from shared inputs; or a history of boundary-condition calls runs. Results are compared with an independent dense model. Non-trivial: at least one context switch inside library code, or a history of two or more calls; distinct by the hash of workload, schedule and results.";
    P.scenarios = {{"reentrant", reentrant, 3}, {"arrival", arrival, 5}, {"analyses", analyses, 3}, {"history", history, 3}};
    P.real_components = {"src/FEM/Controller/{Assembling,BoundaryCondition}.h", "src/LinearAlgebra/Models/{LILCSR,CSR,Vector,Matrix}.h (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"sequentially consistent memory", "two callers never assemble into the same matrix at the same time (the harness serialises those calls)", "a node that is both slave and master is listed as slave first"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
