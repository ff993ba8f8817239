// Driver: several callers run catalogue operations at the same time (same operation on shared
// inputs, same operation on different inputs, different operations); every result must be, bit for
// bit, what the same call returns alone in a pristine process, and shared inputs stay unchanged.
#pragma once
#include "catalog.h"
using namespace sim;
inline void reentrant_run(Run& R, const std::vector<std::string>& groups, u64 budget) {
    Rng& g = R.rng; heap_policy(g.next());
    int mode = (int)g.below(6);         // 0 same case shared, 1 same op different inputs, 2 mixed ops, 3 same op, one shared one not, 4-5 same op, inputs that differ in one draw
    int ntask = g.range(2, g.chance(0.3) ? 4 : 3);
    struct Task { std::vector<int> cases; };
    std::vector<Case> cases; std::vector<std::string> names; std::vector<Task> tasks(ntask);
    const Op& base = pick_op(g, groups);
    auto add = [&](const Op& o) { cases.push_back(o.make(g)); names.push_back(o.name); return (int)cases.size() - 1; };
    Family fam(g); int shared; if (mode >= 4) { cases.push_back(fam.first(base)); names.push_back(base.name); shared = 0; } else shared = add(base);
    auto addv = [&] { cases.push_back(fam.variant(base, g)); names.push_back(base.name); return (int)cases.size() - 1; };
    for (int t = 0; t < ntask; t++) {
        int n = g.range(1, 2);
        for (int k = 0; k < n; k++) {
            if (mode == 0) tasks[t].cases.push_back(shared);
            else if (mode == 1) tasks[t].cases.push_back(add(base));
            else if (mode == 2) tasks[t].cases.push_back(add(pick_op(g, groups)));
            else if (mode >= 4) tasks[t].cases.push_back(t + k == 0 ? shared : addv());
            else tasks[t].cases.push_back(g.chance(0.5) ? shared : add(base));
        }
    }
    std::string nm; for (auto& s : names) if (nm.size() < 300) nm += s + " ";
    note("mode %d, %d callers: %s", mode, ntask, nm.c_str());
    std::vector<Out> in0(cases.size()), want(cases.size());
    std::vector<bool> used(cases.size(), false); for (auto& t : tasks) for (int c : t.cases) used[c] = true;
    for (size_t c = 0; c < cases.size(); c++) { if (!used[c]) continue; if (cases[c].inputs) cases[c].inputs(in0[c]); want[c] = solo([&, c](Out& o) { cases[c].run(o); }, 1); }
    leftovers() = g.chance(0.6) ? g.next() : 0;         // the solo runs had empty output variables
    default_sched(g);
    set_budget(budget);
    int opno = 0; std::vector<int> teams; for (int t = 0; t < ntask; t++) teams.push_back(g.chance(0.3) ? g.range(3, 6) : 1 + t % 2);
    for (int t = 0; t < ntask; t++) {
        int first = opno; opno += (int)tasks[t].cases.size();
        spawn([&, t, first] {
            set_threads(teams[t]);
            for (size_t k = 0; k < tasks[t].cases.size(); k++) {
                if (!enabled(first + (int)k)) continue;
                int c = tasks[t].cases[k]; Out o;
                try { cases[c].run(o); } catch (const std::exception& e) { fail("exception", "%s threw %s when run next to other callers", names[c].c_str(), e.what()); }
                if (o != want[c]) fail("interference", "%s returned something else next to other callers than alone: %s", names[c].c_str(), diff(want[c], o).c_str());
                for (u64 v : o.v) mix_hash(v);
            }
        });
    }
    join_all(); leftovers() = g.chance(0.5) ? g.next() : 0;
    for (size_t c = 0; c < cases.size(); c++) if (used[c] && cases[c].inputs) { Out o; cases[c].inputs(o); if (o != in0[c]) fail("input-changed", "%s changed its shared inputs: %s", names[c].c_str(), diff(in0[c], o).c_str()); }
    // a repeat after everything else has run: history must not matter either
    if (enabled(opno)) { int c = tasks[0].cases[0]; Out o; cases[c].run(o); if (o != want[c]) fail("history-dependent", "%s returned something else after other calls: %s", names[c].c_str(), diff(want[c], o).c_str()); }
    probe(mode == 0 ? "callers_share_inputs" : mode == 1 ? "same_operation_different_inputs" : mode == 2 ? "mixed_operations" : mode == 3 ? "partly_shared_inputs" : "inputs_differ_in_one_draw");
}
