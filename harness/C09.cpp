// C09: every computation under allocation failure: std::bad_alloc reaches the caller, nothing leaks or is corrupted, inputs are
// unchanged, and the same call made again with memory available gives the right result.
//PARTS: eq1 eq2 eq3 eq4 mesh opt la asm
#include "catalog.h"
#include <algorithm>
using namespace sim;
static const std::vector<std::string> ALL = {"element", "la", "solve", "opt", "mesh", "asm", "eig"};
static int attempt(const char* name, Case& c, Out& o) {     // 0 done, 1 out of memory
    try { c.run(o); return 0; }
    catch (const std::bad_alloc&) { return 1; }
    catch (const std::exception& e) { fail("exception", "%s threw %s instead of std::bad_alloc when memory ran out", name, e.what()); }
}
static void points(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); const Op& op = pick_fair(g, ALL); Case c = op.make(g); set_threads(g.range(1, 2)); default_sched(g);
    Out in0; if (c.inputs) c.inputs(in0);
    Out w = solo([&](Out& o) { c.run(o); }, 1);
    u64 a0 = alloc_count(); LeakMark mark0 = leak_mark();
    u64 s0 = steps();
    { Out o; c.run(o); if (o != w) fail("history-dependent", "%s returned something else the second time: %s", op.name, diff(w, o).c_str()); }
    u64 n = alloc_count() - a0; note("%s: %llu allocations, each refused in turn", op.name, (unsigned long long)n);
    if (leaked(mark0)) fail("leak", "%s left %lld blocks allocated without any fault", op.name, (long long)leaked(mark0));
    std::vector<u64> pts; u64 cap = R.quick ? 48 : 400, cost = steps() - s0 + 1, room = (R.quick ? 1500000ull : 40000000ull) / cost; if (cap > room) cap = room < 18 ? 18 : room;
    if (n <= cap) for (u64 i = 0; i < n; i++) pts.push_back(i);
    else { for (u64 i = 0; i < 8; i++) { pts.push_back(i); pts.push_back(n - 1 - i); } for (u64 tries = 0; tries < 400 && pts.size() < cap; tries++) pts.push_back(g.below(n)); std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end()); }
    bool forever = g.chance(0.3);
    for (size_t i = 0; i < pts.size(); i++) {
        u64 f0 = alloc_failures(); alloc_fail_at(alloc_count() + pts[i], forever ? 1ull << 40 : 1);
        Out o; int r = attempt(op.name, c, o); bool hit = alloc_failures() != f0; alloc_fail_clear(); mix_hash(pts[i] * 4 + r * 2 + hit);
        if (r && !hit) fail("exception", "%s reported out of memory although no allocation was refused", op.name);
        if (!r && o != w) fail("wrong-result", "%s returned a wrong result after allocation %llu was refused: %s", op.name, (unsigned long long)pts[i], diff(w, o).c_str());
        if (leaked(mark0)) fail("leak", "%s left %lld blocks allocated after allocation %llu was refused", op.name, (long long)leaked(mark0), (unsigned long long)pts[i]);
        if (c.inputs && (i % 8 == 0 || i + 1 == pts.size())) { Out in1; c.inputs(in1); if (in1 != in0) fail("input-changed", "%s changed its inputs while failing: %s", op.name, diff(in0, in1).c_str()); }
        if (r) probe("calls_failed"); else if (hit) probe("failure_absorbed");
    }
    Out o; if (attempt(op.name, c, o)) fail("no-progress", "%s still fails although memory is available again", op.name);
    if (o != w) fail("wrong-result", "%s returned something else after earlier failures: %s", op.name, diff(w, o).c_str());
    if (leaked(mark0)) fail("leak", "%s left blocks allocated", op.name);
    if (n > cap) probe("allocation_points_sampled"); else probe("all_allocation_points");
}
static void callers(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); int nc = g.range(2, 3); std::vector<Case> cs; std::vector<std::string> names; std::vector<Out> want, in0(nc);
    bool shared = g.chance(0.4); const Op& base = pick_fair(g, ALL);
    for (int c = 0; c < nc; c++) { const Op& o = g.chance(0.5) ? base : pick_fair(g, ALL); if (shared && c) { cs.push_back(cs[0]); names.push_back(names[0]); } else { cs.push_back(o.make(g)); names.push_back(o.name); } }
    double p = std::pow(10.0, -g.uniform(0.7, 3)); note("%d callers (%s, %s ...), allocations refused with probability %.4f", nc, names[0].c_str(), names[1].c_str(), p);
    for (int c = 0; c < nc; c++) { if (cs[c].inputs) cs[c].inputs(in0[c]); want.push_back(shared && c ? want[0] : solo([&, c](Out& o) { cs[c].run(o); }, 1)); }
    default_sched(g); LeakMark mark0 = leak_mark(); alloc_fail_random(p);
    for (int c = 0; c < nc; c++) spawn([&, c] {
        set_threads(1 + c % 2);
        for (int k = 0; k < 2; k++) { if (!enabled(c * 2 + k)) continue; Out o; int r = attempt(names[c].c_str(), cs[c], o); mix_hash(c * 4 + k * 2 + r); if (!r && o != want[c]) fail("wrong-result", "%s returned a wrong result while memory was short: %s", names[c].c_str(), diff(want[c], o).c_str()); probe(r ? "calls_failed" : "calls_completed"); }
    });
    join_all(); alloc_fail_clear();
    if (leaked(mark0)) fail("leak", "%lld blocks still allocated after calls of %s and %s failed", (long long)leaked(mark0), names[0].c_str(), names[1].c_str());
    for (int c = 0; c < nc; c++) {
        if (cs[c].inputs) { Out o; cs[c].inputs(o); if (o != in0[c]) fail("input-changed", "%s changed its inputs while memory was short", names[c].c_str()); }
        Out o; if (attempt(names[c].c_str(), cs[c], o)) fail("no-progress", "%s still fails although memory is available again", names[c].c_str());
        if (o != want[c]) fail("wrong-result", "%s returned something else after memory had been short: %s", names[c].c_str(), diff(want[c], o).c_str());
    }
}
Property& sim::property() {
    static Property P;
    big_rate() = 0.008;
    P.id = "C09"; P.level = "fault_enumeration";
    P.rule = "Each run draws one library computation (any element equation, shape function, mesh generator, filter, optimiser, dense or sparse operation, solver, eigensolver, assembly) with random inputs, counts the heap allocations of a fault-free call and repeats the call with each of them refused in turn (all of them up to 48, thorough 400; otherwise the first and last 8 and a seeded sample; 30%: memory stays exhausted from that point on); or several callers run computations while allocations fail at random. Distinct by the hash of workload, fault points and outcomes; non-trivial: at least one allocation refused.";
    P.scenarios = {{"points", points, 4}, {"callers", callers, 2}};
    P.real_components = {"every header under src/ except PrePost/Import and PrePost/Export (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap with injected failures)", "libgomp (simulated OpenMP runtime)", "thread scheduling (baton scheduler)", "std::cout (captured)"};
    P.assumptions = {"every heap allocation of the library goes through operator new", "stack memory does not run out"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 40; P.thorough_seconds = 900;
    return P;
}
