// C15: results do not depend on what happens to be in memory, where objects lie, what ran before, the clock or entropy.
//PARTS: eq1 eq2 eq3 eq4 mesh opt la asm io io2
#include "catalog.h"
using namespace sim;
static const std::vector<std::string> ALL = {"element", "la", "solve", "opt", "mesh", "asm", "eig", "io"};
static Out once(Case& c, const char* name, u64 pol, u64 env) {
    return solo([&](Out& o) { heap_policy(pol); env_seed(env); stack_garbage(env); c.run(o); }, 1);
}
// the same call in pristine processes that differ only in heap contents, heap layout, clock and entropy
static void environment(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); const Op& op = pick_fair(g, ALL); Case c = op.make(g); note("%s in processes with different heap garbage, addresses, clock and entropy", op.name);
    Out a = once(c, op.name, g.next(), g.next()); int n = g.range(2, 5);
    for (int k = 0; k < n; k++) { u64 p = g.next(), e = g.next(); Out b = once(c, op.name, p, e); if (a != b) fail("environment-dependent", "%s returned something else with other heap contents, addresses, clock or entropy: %s", op.name, diff(a, b).c_str()); mix_hash(b.v.size()); }
    // the same process: heap already used and fragmented
    Out b; set_threads(g.range(1, 3)); c.run(b); if (a != b) fail("environment-dependent", "%s returned something else in a used process: %s", op.name, diff(a, b).c_str());
    probe("environments_compared", n + 1); mark();
}
// after a history of other calls, some of them cut short by allocation failures
static void history(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); const Op& op = pick_fair(g, ALL); Family fam(g); Case c = fam.first(op); int n = g.range(1, 6); Out w = solo([&](Out& o) { c.run(o); }, 1); std::string names; bool faults = g.chance(0.4), related = g.chance(0.6), near = g.chance(0.6); u64 live0 = live_blocks();
    for (int k = 0; k < n; k++) {
        const Op& h = related ? op : pick_fair(g, ALL); { Case x = related && near ? fam.variant(op, g) : h.make(g); names += std::string(h.name) + " "; u64 at = g.below(40); if (!enabled(k)) continue; if (faults) alloc_fail_at(alloc_count() + at); set_threads(g.range(1, 2)); Out o; try { x.run(o); } catch (const std::bad_alloc&) { probe("history_call_failed"); } alloc_fail_clear(); }
        Out o; c.run(o); if (o != w) fail("history-dependent", "%s returned something else after %s: %s", op.name, h.name, diff(w, o).c_str()); mix_hash(o.v.size());
    }
    if (names.size() > 200) names.resize(200); note("%s after %s", op.name, names.c_str()); (void)live0; mark();
}
Property& sim::property() {
    static Property P;
    P.id = "C15"; P.level = "exploration";
    P.rule = "Each run draws one library operation (computation, import or export) with inputs and evaluates it in several simulated processes that differ only in heap garbage, heap addresses and reuse, clock and entropy; or in one process after a history of other calls, some cut short by allocation failures. Everything the call returns is compared bit for bit. Distinct by the hash of workload, environment and results; non-trivial: two or more environments or histories compared, which every run does.";
    P.scenarios = {{"environment", environment, 4}, {"history", history, 3}};
    P.real_components = {"every header under src/ (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (seeded garbage, addresses and reuse)", "clock, rand, random_device (seeded)", "file system (in-memory disk)", "libgomp (simulated OpenMP runtime)"};
    P.assumptions = {"stack contents are seeded per simulated process", "compiler and flags are fixed"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 40; P.thorough_seconds = 900;
    return P;
}
