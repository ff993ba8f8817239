// C17: whole analyses give the same fields, printed text and files in every environment, and fail visibly.
//PARTS: pipe1 pipe2
#include "pipes.h"
using namespace sim;
static const Pipe& choose(Rng& g) { int tot = 0; for (auto& p : pipes()) tot += p.weight; int k = (int)g.below(tot); for (auto& p : pipes()) { k -= p.weight; if (k < 0) return p; } return pipes()[0]; }
static int uid = 0;
static std::string fresh() { return "/sim/result" + ll(uid++); }
static void chunk(Rng& g) { int k = (int)g.below(5); if (k == 0) io().max_chunk = g.range(1, 40); else if (k == 1) io().max_chunk = g.range(41, 900); else if (k == 2) io().p_short = g.uniform(0.1, 1); if (g.chance(0.4)) io().p_eintr = g.uniform(0.05, 0.5); }
struct Job { const Pipe* p; Par a; Out want, in; std::string base; };
static Par make(Rng& g, const Pipe& p) { struct S { int old; ~S() { case_big() = old; } } s = {case_big()}; case_big() = g.uniform(0, 1) < big_rate(); return gen_par(g, p); }
static Job job(Rng& g, const Pipe& p) { Job j; j.p = &p; j.a = make(g, p); par_digest(j.a, j.in); j.base = fresh(); IoCfg c = io(); io() = IoCfg(); j.want = solo([&](Out& o) { Trace t(o, "/sim/alone"); run_pipe(p, j.a, t); }, 1); io() = c; return j; }
static void compare(const Job& j, const Out& o, const char* how) { if (o != j.want) fail("interference", "the analysis '%s' shows something else %s than alone: %s", j.p->name, how, diff(j.want, o).c_str()); }
static void inputs(const Job& j) { Out o; par_digest(j.a, o); if (o != j.in) fail("input-changed", "the analysis '%s' changed its input files", j.p->name); }
// 1..3 analyses at once, some of them one after another in the same thread, any OpenMP team
static void together(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); env_seed(g.next()); int n = g.range(1, 3), same = (int)g.below(3); std::vector<Job> js; std::vector<std::vector<int> > plan(n); const Pipe& base = choose(g); std::string nm;
    for (int t = 0; t < n; t++) { int k = g.range(1, 2); for (int i = 0; i < k; i++) { if (same == 2 && js.size()) { Job j = js[0]; j.base = fresh(); js.push_back(j); } else js.push_back(job(g, same ? base : choose(g))); plan[t].push_back((int)js.size() - 1); nm += std::string(js.back().p->name) + "; "; } }
    note("%d callers: %s", n, nm.c_str()); std::vector<int> teams; for (int t = 0; t < n; t++) teams.push_back(g.chance(0.4) ? g.range(2, 6) : 1); chunk(g); default_sched(g); set_budget(600000000ull);
    int op = 0; for (int t = 0; t < n; t++) {
        int first = op; op += (int)plan[t].size();
        spawn([&, t, first] { set_threads(teams[t]); for (size_t k = 0; k < plan[t].size(); k++) { if (!enabled(first + (int)k)) continue; Job& j = js[plan[t][k]]; Out o; Trace tr(o, j.base); try { run_pipe(*j.p, j.a, tr); } catch (const std::exception& e) { fail("exception", "the analysis '%s' threw %s", j.p->name, e.what()); } compare(j, o, n > 1 ? "next to other analyses" : "in another environment"); for (u64 v : o.v) mix_hash(v); } });
    }
    join_all(); for (auto& j : js) inputs(j); probe("analyses_completed", js.size()); if (n > 1) probe("analyses_side_by_side"); for (int t : teams) if (t > 1) probe("analyses_on_a_team");
}
// memory runs out at some allocations of the analysis
static void memory(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); const Pipe& p = choose(g); Job j = job(g, p); set_threads(g.range(1, 3)); default_sched(g); set_budget(4000000000ull); LeakMark m = leak_mark(); u64 a0 = alloc_count(), s0 = steps(); { Out o; Trace t(o, j.base); run_pipe(p, j.a, t); compare(j, o, "in a used process"); } u64 n = alloc_count() - a0, cost = steps() - s0 + 1; int tries = (int)std::min<u64>(R.quick ? 6 : 40, std::max<u64>(2, (R.quick ? 12000000ull : 300000000ull) / cost)); bool forever = g.chance(0.3); note("%s: %llu allocations, %d of them refused in turn", p.name, (unsigned long long)n, tries);
    for (int k = 0; k < tries; k++) {
        u64 at = k == 0 && g.chance(0.3) ? n - 1 : g.below(n); if (!enabled(k)) continue; u64 f0 = alloc_failures(); alloc_fail_at(alloc_count() + at, forever ? 1ull << 40 : 1); std::string base = fresh(); Out o; Trace t(o, base); bool threw = false;
        try { run_pipe(p, j.a, t); } catch (const std::bad_alloc&) { threw = true; } catch (const std::exception& e) { fail("exception", "the analysis '%s' threw %s instead of std::bad_alloc when memory ran out", p.name, e.what()); }
        bool hit = alloc_failures() != f0; alloc_fail_clear(); mix_hash(at * 4 + threw * 2 + hit);
        if (threw && !hit) fail("exception", "the analysis '%s' reported out of memory although no allocation was refused", p.name);
        if (!threw) { // an import may report the failure through its stream; an export loses the file it could not write; everything else must be right
            if (t.refused) { if (!hit) fail("wrong-result", "the analysis '%s' could not read its model although nothing failed", p.name); probe("import_reported_failure"); }
            else { bool lost = false; for (auto& f : t.files) if (!f.opened || !f.good) lost = true; if (lost) probe("export_reported_failure"); else compare(j, o, "after an allocation was refused"); }
        }
        probe(threw ? "analyses_failed" : "failure_absorbed"); if (leaked(m)) fail("leak", "the analysis '%s' left %lld blocks allocated after allocation %llu was refused", p.name, (long long)leaked(m), (unsigned long long)at);
    }
    Out o; Trace t(o, fresh()); run_pipe(p, j.a, t); compare(j, o, "after memory had been short"); inputs(j);
}
// the disk fails while models are read or results written
static void disk(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); const Pipe& p = choose(g); Job j = job(g, p); set_threads(g.range(1, 2)); default_sched(g);
    // fault-free files, to tell a prefix from anything else
    std::vector<std::string> good; { Out o; Trace t(o, j.base); run_pipe(p, j.a, t); compare(j, o, "in a used process"); for (auto& f : t.files) good.push_back(disk_get(f.path)); }
    int kind = (int)g.below(4); chunk(g); size_t total = 0; for (auto& s : good) total += s.size();
    if (kind == 0) io().p_err = g.uniform(0.02, 0.5); else if (kind == 2) { io().p_open = g.uniform(0.1, 0.6); } else { io().err_at = (long)g.below(good.empty() ? 400 : good[0].size() + 1); io().err_kind = (int)g.below(2); io().err_sticky = g.chance(0.5); }
    if (kind == 1) { u64 base = 0; for (auto& s : good) base += s.size(); if (!j.a.in.empty()) for (const char* f : {".node.csv", ".element.csv", ".dirichlet.csv", ".neumann.csv"}) base += disk_get(j.a.in + f).size(); io().capacity = (i64)(base + g.below(total + 1)); }
    note("%s with disk fault kind %d", p.name, kind); u64 f0 = io_faults(); std::string base = fresh(); Out o; Trace t(o, base); try { run_pipe(p, j.a, t); } catch (const std::exception& e) { fail("exception", "the analysis '%s' threw %s when the disk failed", p.name, e.what()); } bool hit = io_faults() != f0; bool sticky = io().err_sticky; io() = IoCfg();
    if (t.refused) { if (!hit) fail("wrong-result", "the analysis '%s' could not read its model although the disk worked", p.name); probe("import_reported_failure"); }
    else {
        bool lost = false, ordered = kind == 2 || (kind % 2 && sticky);      // a transient error may leave a hole (libstdc++ writes on when the stream is closed)
        if (t.files.size() != good.size()) fail("wrong-result", "the analysis '%s' wrote %d files, %d without the fault", p.name, (int)t.files.size(), (int)good.size());
        for (size_t i = 0; i < good.size(); i++) { std::string s = disk_get(t.files[i].path); bool ok = t.files[i].opened && t.files[i].good; if (ok && s != good[i]) fail("silent-loss", "file %d of the analysis '%s' is not what it should be although its stream reports success", (int)i, p.name); if (!ok) { lost = true; if (ordered && good[i].compare(0, s.size(), s) != 0) fail("not-a-prefix", "file %d of the analysis '%s' is not a prefix of the fault-free file", (int)i, p.name); } }
        if (lost && !hit) fail("wrong-result", "the analysis '%s' lost a file although the disk worked", p.name);
        // the fields themselves do not depend on the disk: same digest except for the files' entries at the end
        size_t tail = good.size() * 4 + 2; if (o.v.size() != j.want.v.size()) fail("wrong-result", "the analysis '%s' computed something else when the disk failed", p.name);
        for (size_t i = 0; i + tail < o.v.size(); i++) if (o.v[i] != j.want.v[i]) { fail("wrong-result", "the analysis '%s' computed something else when the disk failed (value %d)", p.name, (int)i); }
        probe(lost ? "export_reported_failure" : "fault_absorbed");
    }
    Out q; Trace t2(q, fresh()); run_pipe(p, j.a, t2); compare(j, q, "after the disk worked again"); inputs(j); mix_hash(hit); if (hit) mark();
}
Property& sim::property() {
    static Property P; big_rate() = 0.01;
    P.id = "C17"; P.level = "exploration";
    P.rule = "Each run draws whole analyses in miniature (the pipelines of the sample programs: heat, advection, reaction-diffusion, elasticity, finite deformation, shell, topology and truss optimisation, vibration, homogenisation, two flow solvers) with model sizes, parameters and solvers, and runs 1-3 callers with one or two analyses each under a seeded schedule, OpenMP teams, heap contents and short or interrupted transfers; or one analysis with allocations refused; or one with disk errors, a full disk or files that cannot be opened. Fields, printed text and file contents are compared with the analysis alone in a pristine process. Distinct by the hash of workload, schedule, faults and results; non-trivial: a context switch, an injected fault or a disturbed transfer.";
    P.scenarios = {{"together", together, 5}, {"memory", memory, 2}, {"disk", disk, 3}};
    P.real_components = {"src/FEM, src/LinearAlgebra, src/Optimize, src/PrePost as the sample programs combine them (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"sample main programs (miniatures of them in harness/part_pipe*.cpp)", "file system (in-memory disk)", "operator new/delete (simulated heap)", "libgomp and thread scheduling (simulated)", "std::cout (captured per caller)"};
    P.assumptions = {"sequentially consistent memory", "no two analyses write the same file", "an analysis stops when an importer reports failure"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 30; P.thorough_seconds = 900;
    return P;
}
