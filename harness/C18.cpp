// C18: an analysis cut short by a power loss continues from the newest complete result on the disk.
//PARTS: restart
#include "restart.h"
#include <cstdlib>
#include <algorithm>
using namespace sim;
static const char* const KIND[] = {"transient heat conduction", "reaction-diffusion", "cavity flow", "density optimisation"};
static double six(double x) { char b[64]; snprintf(b, sizeof b, "%g", x); return strtod(b, nullptr); }       // what a text file with the default precision keeps
static State rounded(State s) { for (auto& r : s.x) for (double& v : r) v = six(v); for (auto& f : s.field) for (auto& r : f.v) for (double& v : r) v = six(v); return s; }
struct Life {
    StepPar a; std::string base; std::vector<State> plan; std::vector<std::string> bytes; int done; State cur; bool alive; std::string why;      // plan[k], bytes[k]: state and file after step k of the current incarnation, had it lived
    std::string file(int k) const { return base + "." + ll(k) + ".vtk"; }
};
// the rest of the analysis from state s after step k, had nothing failed (own reference files)
static void foresee(Life& L, State s, int k, int incarnation) {
    L.plan.resize(L.a.steps); L.bytes.resize(L.a.steps);
    for (int i = k + 1; i < L.a.steps; i++) { st_step(L.a, s); L.plan[i] = s; std::string ref = L.base + ".ref"; (void)incarnation; if (!st_write(s, ref)) fail("wrong-result", "a fault-free export failed"); L.bytes[i] = disk_get(ref); }
}
static bool fits(const State& s, const State& shape) { if (s.x.size() != shape.x.size() || s.el != shape.el || s.field.size() != shape.field.size()) return false; for (size_t i = 0; i < s.field.size(); i++) if (s.field[i].v.size() != shape.field[i].v.size()) return false; return true; }
// what a user does after a crash: newest file first, import it, take it if it has all its rows and its last line is finished
static int recover(Life& L, const State& shape) {
    for (int k = L.a.steps - 1; k >= 0; k--) {
        if (!disk_exists(L.file(k))) continue;
        State s = st_read(shape, L.file(k)); std::string b = disk_get(L.file(k)); bool complete = fits(s, shape) && !b.empty() && b.back() == '\n';
        if (complete != (b == L.bytes[k])) { std::string fld; for (size_t i = 0; i < s.field.size(); i++) fld += s.field[i].name + " " + ll(s.field[i].v.size()) + "/" + ll(shape.field[i].v.size()) + " "; if (complete) fail("accepted-incomplete", "file %d of %s has all its rows and its last line when it is read, but is not the complete file (%zu of %zu bytes)", k, KIND[L.a.kind], b.size(), L.bytes[k].size()); { fail("refused-complete", "file %d of %s is complete on the disk but reads back as something else: %zu of %zu points, %zu of %zu cells, %s (%zu bytes)", k, KIND[L.a.kind], s.x.size(), shape.x.size(), s.el.size(), shape.el.size(), fld.c_str(), b.size()); } }
        if (!complete) { probe("torn_file_recognised"); continue; }
        Out w, o; put(w, rounded(L.plan[k])); put(o, s); if (w != o) fail("wrong-state", "%s: what was imported from file %d is not what was exported: %s", KIND[L.a.kind], k, diff(w, o).c_str());
        L.cur = s; return k;
    }
    return -1;
}
static void life(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); int n = g.chance(0.3) ? 2 : 1; std::vector<Life> ls(n); std::vector<int> teams; std::string nm; static int uid = 0;
    for (auto& L : ls) { L.a.kind = (int)g.below(4); L.a.nx = g.range(1, 3); L.a.ny = g.range(1, 2); L.a.steps = g.range(2, 5); for (double& r : L.a.r) r = g.uniform(0.3, 2); L.base = "/sim/life" + ll(uid++); L.done = -1; L.cur = st_start(L.a); foresee(L, L.cur, -1, 0); teams.push_back(g.chance(0.3) ? g.range(2, 4) : 1); nm += KIND[L.a.kind]; nm += "; "; }
    int crashes = g.range(1, 3), soft = (int)g.below(4); if (soft == 0) io().max_chunk = g.range(1, 50); else if (soft == 1) io().p_short = g.uniform(0.1, 1); if (g.chance(0.4)) io().p_eintr = g.uniform(0.05, 0.4); default_sched(g); set_budget(3000000000ull); note("%s %d power losses", nm.c_str(), crashes); u64 lost = 0;
    for (int inc = 0; inc <= crashes; inc++) {
        bool dies = inc < crashes && enabled(inc); u64 total = 0; for (auto& L : ls) for (int k = L.done + 1; k < L.a.steps; k++) total += L.bytes[k].size();
        if (!total) break;
        io().crash_at = dies ? (i64)(io_written() + g.below(total + 1)) : -1; u64 spoil = g.next(); bool reorder = g.chance(0.4);
        for (int t = 0; t < n; t++) spawn([&, t] {
            Life& L = ls[t]; set_threads(teams[t]); State s = L.cur; for (int k = L.done + 1; k < L.a.steps; k++) { st_step(L.a, s); Out w, o; put(w, L.plan[k]); put(o, s); if (w != o) fail("interference", "%s: step %d gave something else than the same step alone: %s", KIND[L.a.kind], k, diff(w, o).c_str()); bool ok = st_write(s, L.file(k)); if (!ok) fail("false-failure", "%s: exporting step %d reports failure although no write was refused", KIND[L.a.kind], k); }
            L.cur = s;
        });
        join_all(); io().crash_at = -1; for (auto& L : ls) for (int k = 0; k < L.a.steps; k++) mix_hash(disk_get(L.file(k)).size());
        if (!dies) { for (auto& L : ls) for (int k = L.done + 1; k < L.a.steps; k++) if (disk_get(L.file(k)) != L.bytes[k]) fail("wrong-result", "%s: file %d is not the one a run without interruption from the same state writes", KIND[L.a.kind], k); break; }
        // without fsync, a file written in this incarnation may have lost its tail although a later one survived; the tail may read as zeros
        Rng z(spoil); for (auto& L : ls) for (int k = L.done + 1; k < L.a.steps; k++) if (reorder && disk_exists(L.file(k)) && z.chance(0.4)) { std::string b = disk_get(L.file(k)); size_t cut = b.size() ? z.below(b.size()) : 0; std::string c = b.substr(0, cut); if (z.chance(0.3)) c += std::string(b.size() - cut, '\0'); disk_put(L.file(k), c); probe("file_lost_its_tail"); }
        for (auto& L : ls) { State shape = L.done < 0 ? st_start(L.a) : L.cur; int k = recover(L, shape); if (k < L.done && L.done >= 0) fail("refused-complete", "%s: file %d was complete before this incarnation and cannot be used any more", KIND[L.a.kind], L.done); if (k < 0) { L.cur = st_start(L.a); probe("restarted_from_the_beginning"); } else probe("continued_from_a_file"); L.done = k; foresee(L, L.cur, k, inc + 1); lost++; }
    }
    if (lost) { probe("power_losses", lost); mark(); }
}
Property& sim::property() {
    static Property P;
    P.id = "C18"; P.level = "exploration";
    P.rule = "Each run draws one or two time-stepping analyses (heat, reaction-diffusion, flow, density optimisation) that export every step, cuts the power after a chosen byte of everything written (1-3 times; files of the last incarnation may also lose their tail or end in zeros, as without fsync), imports what is on the disk newest file first, and continues from the first file that has all its rows and a finished last line, under short or interrupted transfers, OpenMP teams and a seeded schedule. The state imported, every later step and every file are compared with a reference continued in memory from the exported state rounded to six digits. Distinct by the hash of workload, schedule, crash points and surviving bytes; non-trivial: at least one power loss.";
    P.scenarios = {{"life", life, 1}};
    P.real_components = {"src/PrePost/Export/ExportToVTK.h, src/PrePost/Import/ImportFromVTK.h, src/FEM, src/LinearAlgebra, src/Optimize/Solver/OC.h (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk)", "operator new/delete (simulated heap)", "libgomp and thread scheduling (simulated)", "the restart procedure of the user (newest file first, all rows present, last line finished)"};
    P.assumptions = {"bytes of one file reach the disk in order; different files in any order", "the user's restart procedure is the one described"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
