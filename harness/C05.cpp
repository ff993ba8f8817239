// C05: optimisers and filters: state belongs to one object, interleaving cannot mix problems, variables stay inside their limits.
//PARTS: opt
#include "reentrant.h"
#include "optenv.h"
static void reentrant(Run& R) { reentrant_run(R, {"opt"}, 400000000ull); }
// Several optimisations advance one step at a time, in an order the scheduler picks, some of them on
// concurrent callers; after every step the variables must be inside their limits, and each trajectory
// must be the one the same optimisation produces alone. An object copied half way must go on as the original.
static void in_limits(const char* who, const Prob& p, const std::vector<double>& before, const std::vector<double>& x, double move, bool oc) {
    if ((int)x.size() != p.n) fail("limits", "%s returned %zu variables for %d", who, x.size(), p.n);
    for (int i = 0; i < p.n; i++) {
        double lo = oc ? std::max(0.0, (1 - move) * before[i]) : std::max(p.xmin[i], before[i] - move * (p.xmax[i] - p.xmin[i]));
        double hi = oc ? std::min(1.0, (1 + move) * before[i]) : std::min(p.xmax[i], before[i] + move * (p.xmax[i] - p.xmin[i]));
        if (!(x[i] >= lo - 1e-9 && x[i] <= hi + 1e-9)) fail("limits", "%s moved variable %d from %.17g to %.17g, limits are %.17g and %.17g", who, i, before[i], x[i], lo, hi);
        // OC clips to the unit interval and never looks at the bounds it was constructed with
        if (oc && before[i] >= p.xmin[i] && before[i] <= p.xmax[i] && !(x[i] >= p.xmin[i] - 1e-9 && x[i] <= p.xmax[i] + 1e-9)) known("oc-ignores-constructor-bounds", "OC moved variable %d from %.17g to %.17g, its bounds are %.17g and %.17g", i, before[i], x[i], p.xmin[i], p.xmax[i]);
    }
}
template <class D> struct Traj { static Out alone(const Prob& p, int steps) { return solo([&](Out& o) { D d(p); std::vector<double> x = p.x0; for (int k = 0; k < steps; k++) d.step(x, o); }); } };
template <class D> static void steps_run(Run& R, const char* who, bool oc) {
    Rng& g = R.rng; heap_policy(g.next());
    int n = g.range(2, 3); std::vector<Prob> ps; std::vector<int> steps; std::vector<Out> want, got(n); std::vector<std::vector<double> > x;
    for (int i = 0; i < n; i++) { ps.push_back(gen_prob(g, D::maxm)); steps.push_back(g.range(1, 5)); }
    if (g.chance(0.3)) for (int i = 1; i < n; i++) { ps[i].n = ps[0].n; ps[i] = ps[0]; }      // identical problems, same size
    note("%d interleaved %s optimisations, n=%d m=%d", n, who, ps[0].n, ps[0].m);
    for (int i = 0; i < n; i++) want.push_back(Traj<D>::alone(ps[i], steps[i]));
    std::vector<std::unique_ptr<D> > d; for (int i = 0; i < n; i++) { d.emplace_back(new D(ps[i])); x.push_back(ps[i].x0); }
    default_sched(g); set_budget(400000000ull);
    u64 asks = g.chance(0.5) ? g.next() | 1024 : 0; std::vector<int> nstep(n, 0);
    double dm = oc ? 0 : 0.5; bool conc = g.chance(0.5); int k = 0;
    auto one = [&](int i) { std::vector<double> b = x[i]; u64 q0 = asks ? asks + 16 * i + nstep[i]++ : 0; d[i]->step(x[i], got[i], q0); double mv = oc ? ps[i].move : (ps[i].params ? ps[i].move : dm); in_limits(who, ps[i], b, x[i], mv, oc); };
    if (conc) { for (int i = 0; i < n; i++) spawn([&, i] { for (int s = 0; s < steps[i]; s++) one(i); }); join_all(); probe("concurrent_optimisations"); }
    else { std::vector<int> left = steps; int tot = 0; for (int s : left) tot += s; while (tot) { int i = (int)g.below(n); if (!left[i]) continue; left[i]--; tot--; one(i); k++; yield_point(); } probe("step_interleaved_optimisations"); }
    for (int i = 0; i < n; i++) { double f = ps[i].f(x[i]), p1 = tolerance(*d[i]->h.o, f); idle(*d[i]->h.o, f, 99 + i); double p2 = tolerance(*d[i]->h.o, f); if (p1 != p2) fail("query-changes-state", "asked about convergence again, %s optimisation %d answers differently: tolerance %.17g, then %.17g", who, i, p1, p2); }
    for (int i = 0; i < n; i++) { if (got[i] != want[i]) fail("interference", "%s optimisation %d took another path next to others than alone: %s", who, i, diff(want[i], got[i]).c_str()); for (u64 v : got[i].v) mix_hash(v); }
}
static void oc(Run& R) { steps_run<DriveOC>(R, "OC", true); }
static void mma(Run& R) { steps_run<DriveMMA>(R, "MMA", false); }
static void con(Run& R) { steps_run<DriveCON>(R, "CONLIN", false); }
Property& sim::property() {
    static Property P;
    P.id = "C05"; P.level = "exploration";
    P.rule = "Each run draws optimisation problems or filters, the number of updates, the order in which several optimisations advance (step by step on one caller, or on concurrent callers), heap policy and schedule from the run seed; every trajectory is compared bit by bit with the same optimisation running alone in a pristine process, and after every update each variable is checked against its bounds and move limits. Non-trivial: at least one context switch inside library code or two optimisations interleaved; distinct by the hash of workload, schedule and results.";
    P.scenarios = {{"reentrant", reentrant, 3}, {"oc_steps", oc, 1}, {"mma_steps", mma, 2}, {"conlin_steps", con, 2}};
    P.real_components = {"src/Optimize/Solver/{OC,MMA,CONLIN}.h", "src/Optimize/Filter/*.h (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap)", "thread scheduling (baton scheduler)", "std::cout (captured per caller)"};
    P.assumptions = {"sequentially consistent memory", "preemption points are the compiler-instrumented memory accesses and runtime calls of library code", "problems are convex (sum c/x with linear volume constraints) so the inner loops end"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
