// C19: calls into user code. A user function that throws or calls the library itself; an update that fails half-way and is repeated.
//PARTS: eq1 eq2 eq3 eq4 mesh opt io io2
#include "vtkcheck.h"
#include "optenv.h"
#include <stdexcept>
using namespace sim;
// ------------------------------------------------------------------ what user functions do when they are called
struct Ticker { u64 n, at; std::function<void()> act; Ticker() : n(0), at(~0ull) {} };
static Ticker& ticker() { static Ticker t[64]; return t[self() & 63]; }
static void on_call() { Ticker& t = ticker(); if (t.n++ == t.at) { std::function<void()> f = t.act; f(); } }
struct Poison { u64 id; char text[56]; };       // what a user function throws: not derived from anything the library knows
static void throw_it(u64 id) { int k = (int)(id % 4); if (k == 0) { Poison p; p.id = id; snprintf(p.text, sizeof p.text, "user error %llu", (unsigned long long)id); throw p; } if (k == 1) throw std::out_of_range("user error " + ll(id)); if (k == 2) throw (long)id; throw std::bad_alloc(); }
// runs fn, which must end with the exception throw_it(id) throws; 0 it did, 1 it returned
template <class F> static int expect(const char* name, u64 id, F fn) {
    int k = (int)(id % 4);
    try { fn(); return 1; }
    catch (const Poison& p) { if (k != 0 || p.id != id || std::string(p.text) != "user error " + ll(id)) fail("wrong-exception", "%s turned one user exception into another", name); }
    catch (const std::out_of_range& e) { if (k != 1 || std::string(e.what()) != "user error " + ll(id)) fail("wrong-exception", "%s passed on std::out_of_range(\"%s\") for user error %llu", name, e.what(), (unsigned long long)id); }
    catch (long v) { if (k != 2 || (u64)v != id) fail("wrong-exception", "%s passed on another number than the user function threw", name); }
    catch (const std::bad_alloc&) { if (k != 3) fail("wrong-exception", "%s passed on std::bad_alloc for another user exception", name); }
    catch (const std::exception& e) { fail("wrong-exception", "%s passed on \"%s\" for another user exception", name, e.what()); }
    return 0;
}
static bool has_callback(const Op& o) {
    std::string s = o.name, g = o.group; if (g == "mesh" || s == "OC") return true; if (g != "element") return false;
    auto in = [&](const char* q) { return s.find(q) != std::string::npos; };
    return in("SurfaceFlux") || in("NumericIntegrationOnLine") || in("DiffusionReaction<") || ((in("SurfaceForce") || in("BodyForce")) && !in("Homogenize") && !in("Brinkman"));
}
static const Op& pick_cb(Rng& g) { static std::vector<const Op*> a[3]; if (a[0].empty()) for (auto& o : catalog()) if (has_callback(o)) a[std::string(o.group) == "mesh" ? 0 : std::string(o.group) == "opt" ? 1 : 2].push_back(&o); int k = (int)g.below(10); auto& v = a[k < 5 ? 0 : k < 6 ? 1 : 2]; return *v[g.below(v.size())]; }
// a case and what it returns alone, without any interference; calls: how often it calls the user function
struct Job { const Op* op; Case c; Out want, in0; u64 calls; };
static void settle(Job& j) { if (j.c.inputs) j.c.inputs(j.in0); Out w = solo([&](Out& o) { ticker() = Ticker(); j.c.run(o); o.i((long)ticker().n); }, 1); j.calls = w.v.back(); w.v.pop_back(); j.want = w; }
static Job calling(Rng& g, bool need) { for (int k = 0; ; k++) { Job j; j.op = &pick_cb(g); j.c = j.op->make(g); settle(j); if (j.calls || !need || k >= 8) return j; } }
static void ended(const Job& j, int r) { if (r) fail("exception-lost", "%s returned although the user function it was given threw", j.op->name); probe("user_exceptions"); }
static void same_inputs(const Job& j) { if (!j.c.inputs) return; Out o; j.c.inputs(o); if (o != j.in0) fail("input-changed", "%s changed its inputs: %s", j.op->name, diff(j.in0, o).c_str()); }
static void throwing(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); on_tick() = on_call; Job j = calling(g, true); note("%s, %llu calls of the user function", j.op->name, (unsigned long long)j.calls); if (!j.calls) return;
    set_threads(g.range(1, 2)); default_sched(g); LeakMark m0 = leak_mark(); std::vector<u64> pts; u64 cap = R.quick ? 24 : 200; if (j.calls <= cap) for (u64 i = 0; i < j.calls; i++) pts.push_back(i); else { pts = {0, 1, j.calls - 2, j.calls - 1}; while (pts.size() < cap) pts.push_back(g.below(j.calls)); }
    for (size_t i = 0; i < pts.size(); i++) {
        if (!enabled((int)i)) continue;
        u64 id = g.next() >> 2; ticker() = Ticker(); ticker().at = pts[i]; ticker().act = [id] { throw_it(id); };
        Out o; ended(j, expect(j.op->name, id, [&] { j.c.run(o); })); ticker() = Ticker(); mix_hash(pts[i]);
        if (leaked(m0)) fail("leak", "%s left %lld blocks allocated after the user function threw at call %llu", j.op->name, (long long)leaked(m0), (unsigned long long)pts[i]);
        if (i % 6 == 0 || i + 1 == pts.size()) { same_inputs(j); Out q; j.c.run(q); if (q != j.want) fail("wrong-result", "%s returned something else after a user function threw: %s", j.op->name, diff(j.want, q).c_str()); }
    }
    mark();
}
static void callers(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); on_tick() = on_call; int nc = g.range(2, 3); std::vector<Job> js; bool share = g.chance(0.4); for (int c = 0; c < nc; c++) js.push_back(share && c ? js[0] : calling(g, true)); std::vector<std::vector<u64> > at(nc), id(nc); for (int c = 0; c < nc; c++) for (int k = 0; k < 3; k++) { bool t = js[c].calls && g.chance(0.6); at[c].push_back(t ? g.below(js[c].calls) : ~0ull); id[c].push_back(g.next() >> 2); }
    note("%d callers: %s, %s ...", nc, js[0].op->name, js[1].op->name); default_sched(g); LeakMark m0 = leak_mark();
    for (int c = 0; c < nc; c++) spawn([&, c] {
        set_threads(1 + c % 2); Job& j = js[c];
        for (int k = 0; k < 3; k++) { if (!enabled(c * 3 + k)) continue; ticker() = Ticker(); ticker().at = at[c][k]; u64 e = id[c][k]; ticker().act = [e] { throw_it(e); }; Out o; if (at[c][k] != ~0ull) { ended(j, expect(j.op->name, e, [&] { j.c.run(o); })); continue; } try { j.c.run(o); } catch (...) { fail("exception", "%s threw although its own user function did not", j.op->name); } if (o != j.want) fail("interference", "%s returned something else while user functions of other callers threw: %s", j.op->name, diff(j.want, o).c_str()); mark(); }
        ticker() = Ticker();
    });
    join_all(); if (leaked(m0)) fail("leak", "%lld blocks left after user functions of %s and %s threw", (long long)leaked(m0), js[0].op->name, js[1].op->name);
    for (auto& j : js) { same_inputs(j); Out q; ticker() = Ticker(); j.c.run(q); if (q != j.want) fail("wrong-result", "%s returned something else after user functions threw: %s", j.op->name, diff(j.want, q).c_str()); }
}
// a user function that calls the library: the inner call, any operation, and the outer one both give what they give alone
static void nested(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); on_tick() = on_call; int nc = g.chance(0.3) ? 2 : 1; struct Chain { std::vector<Job> js; std::vector<u64> at; }; std::vector<Chain> cs(nc);
    for (auto& c : cs) { int depth = g.range(2, 4); for (int d = 0; d < depth; d++) { bool last = d + 1 == depth; Job j; int k = (int)g.below(4); if (d && k < 2) { j.op = c.js[d - 1].op; j.c = j.op->make(g); settle(j); } else if (d && k == 2) j = c.js[d - 1]; else if (last && g.chance(0.5)) { j.op = &pick_fair(g, {"element", "opt", "mesh", "io"}); j.c = j.op->make(g); settle(j); } else j = calling(g, true); c.js.push_back(j); c.at.push_back(j.calls ? g.below(j.calls) : 0); if (!j.calls) break; } }
    std::string nm; for (auto& c : cs) { for (auto& j : c.js) nm += std::string(j.op->name) + " > "; nm += "; "; } note("%s", nm.c_str()); default_sched(g); LeakMark m0 = leak_mark(); set_budget(2000000000ull);
    std::function<void(Chain&, size_t)> level = [&](Chain& c, size_t d) {
        Job& j = c.js[d]; Ticker keep = ticker(); std::string text = cout_text(self()); cout_clear(self()); bool more = d + 1 < c.js.size(); ticker() = Ticker(); if (more && enabled((int)d)) { ticker().at = c.at[d]; ticker().act = [&, d] { level(c, d + 1); }; }
        Out o; try { j.c.run(o); } catch (const std::exception& e) { fail("exception", "%s at depth %zu threw %s", j.op->name, d, e.what()); }
        if (o != j.want) fail("not-reentrant", "%s at depth %zu (%s it) returned something else than alone: %s", j.op->name, d, more ? "its user function called the library inside" : "a user function called", diff(j.want, o).c_str());
        ticker() = keep; cout_put(self(), text); probe("nested_calls", d > 0); if (d) mark(); for (u64 v : o.v) mix_hash(v);
    };
    if (nc == 1) level(cs[0], 0); else { for (int c = 0; c < nc; c++) spawn([&, c] { level(cs[c], 0); }); join_all(); }
    if (leaked(m0)) fail("leak", "%lld blocks left after nested calls %s", (long long)leaked(m0), nm.c_str()); for (auto& c : cs) for (auto& j : c.js) same_inputs(j);
}
// an optimisation whose updates fail (memory, or the constraint function throws) and are repeated from the same arguments takes the path of one without failures
template <class D> static void retry(Run& R, const char* who) {
    Rng& g = R.rng; heap_policy(g.next()); on_tick() = on_call; int n = g.range(1, 3); std::vector<Prob> ps; std::vector<int> steps; std::vector<Out> want; u64 gs = g.next();
    for (int i = 0; i < n; i++) { ps.push_back(gen_prob(g, D::maxm)); steps.push_back(g.range(3, 6)); }
    for (int i = 0; i < n; i++) want.push_back(solo([&, i](Out& o) { ticker() = Ticker(); D d(ps[i]); std::vector<double> x = ps[i].x0; for (int s = 0; s < steps[i]; s++) d.step(x, o); }, 1));
    note("%d optimisation(s) with %s", n, who); default_sched(g); set_budget(3000000000ull); bool conc = n > 1 && g.chance(0.5); double p = std::pow(10.0, -g.uniform(1, 3)); LeakMark m0 = leak_mark();
    {
        std::vector<std::unique_ptr<D> > d; std::vector<std::vector<double> > x; std::vector<Out> got(n); std::vector<u64> last(n, 60); for (int i = 0; i < n; i++) { d.emplace_back(new D(ps[i])); x.push_back(ps[i].x0); }
        auto one = [&](int i, int s) {
            Rng h(mix(gs, i * 100 + s)); int tries = h.chance(0.7) ? h.range(1, 3) : 0;
            for (int t = 0; ; t++) {
                std::vector<double> b = x[i]; Out o; ticker() = Ticker(); bool planned = t < tries && enabled(i * 40 + s * 4 + t); u64 id = (h.next() >> 2), a0 = alloc_count(); bool thr = planned && D::maxm == 1 && h.chance(0.5);
                if (thr) { ticker().at = h.below(12); ticker().act = [id] { throw_it(id); }; } else if (planned && !conc) alloc_fail_at(a0 + h.below(last[i]));
                bool ok = false; try { d[i]->step(x[i], o); ok = true; } catch (const Poison&) {} catch (const std::out_of_range&) {} catch (long) {} catch (const std::bad_alloc&) {}
                if (!conc) alloc_fail_clear();
                ticker() = Ticker(); if (ok) { if (!conc) last[i] = alloc_count() - a0 + 1; got[i].v.insert(got[i].v.end(), o.v.begin(), o.v.end()); return; }
                probe("updates_failed"); mark(); if (b != x[i]) fail("not-repeatable", "%s changed the design variables although update %d failed", who, s); if (conc && t > 15) alloc_fail_clear();
            }
        };
        if (conc) { alloc_fail_random(p); for (int i = 0; i < n; i++) spawn([&, i] { for (int s = 0; s < steps[i]; s++) one(i, s); }); join_all(); alloc_fail_clear(); }
        else { int most = 0; for (int s : steps) most = std::max(most, s); for (int s = 0; s < most; s++) for (int i = 0; i < n; i++) if (s < steps[i]) one(i, s); }
        for (int i = 0; i < n; i++) { if (got[i] != want[i]) fail("not-repeatable", "%s: updates that failed and were repeated led elsewhere than updates that did not fail: %s", who, diff(want[i], got[i]).c_str()); for (u64 v : got[i].v) mix_hash(v); }
    }
    if (leaked(m0)) fail("leak", "%s left %lld blocks allocated", who, (long long)leaked(m0));
}
static void oc(Run& R) { retry<DriveOC>(R, "OC"); }
static void mma(Run& R) { retry<DriveMMA>(R, "MMA"); }
static void con(Run& R) { retry<DriveCON>(R, "CONLIN"); }
// imports and exports that fail and are repeated once the fault is gone
static void files(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); std::vector<std::string> io1 = {"io"}; int n = g.range(1, 3); std::vector<Job> js; for (int i = 0; i < n; i++) { Job j; j.op = &pick_op(g, io1); j.c = j.op->make(g); settle(j); js.push_back(j); } note("%d import(s) and export(s): %s ...", n, js[0].op->name); default_sched(g); IoCfg calm = io(); LeakMark m0 = leak_mark();
    int rounds = g.range(1, 3); double pa = std::pow(10.0, -g.uniform(0.7, 3)); int kind = (int)g.below(4); std::vector<u64> hash;
    for (int r = 0; r < rounds; r++) {
        if (kind == 0) io().p_err = g.uniform(0.05, 0.8); else if (kind == 1) io().p_open = g.uniform(0.2, 1); else if (kind == 2) { io().err_at = (i64)g.below(300); io().err_sticky = g.chance(0.5); } else alloc_fail_random(pa);
        for (int i = 0; i < n; i++) spawn([&, i] { Out o; try { js[i].c.run(o); } catch (const std::exception&) { probe("calls_failed"); mark(); } if (o != js[i].want) probe("calls_disturbed"); });
        join_all(); alloc_fail_clear(); io() = calm; if (kind < 3) mark();
        for (int i = 0; i < n; i++) { if (!enabled(r * 4 + i)) continue; Out o; try { js[i].c.run(o); } catch (const std::exception& e) { fail("not-repeatable", "%s threw %s although the fault is gone", js[i].op->name, e.what()); } if (o != js[i].want) fail("not-repeatable", "%s repeated after a failure gives something else: %s", js[i].op->name, diff(js[i].want, o).c_str()); mix_hash(o.v.size()); same_inputs(js[i]); }
    }
    if (leaked(m0)) fail("leak", "%lld blocks left after imports and exports failed", (long long)leaked(m0));
}
Property& sim::property() {
    static Property P;
    big_rate() = 0.01;
    P.id = "C19"; P.level = "exploration";
    P.rule = "Each run draws library calls that take a user function (mesh queries with a predicate, surface, body and reaction terms with a load, numeric integration, OC with its constraint) and lets that function, at a chosen call, throw one of four exceptions (single caller: up to 24 points, thorough 200; or several callers of whom some throw), or call the library itself, up to four levels deep, the same operation included; or lets updates of OC, MMA and CONLIN fail (memory refused at a chosen allocation, constraint function throws) and repeats them; or repeats imports and exports after faults have gone. Results are compared with the same call alone in a pristine process; exceptions must arrive unchanged; nothing may leak. Distinct by the hash of workload, schedule and results; non-trivial: at least one user exception, nested call, failed update or I/O fault.";
    P.scenarios = {{"throwing", throwing, 3}, {"callers", callers, 2}, {"nested", nested, 4}, {"oc_retry", oc, 1}, {"mma_retry", mma, 2}, {"conlin_retry", con, 1}, {"files", files, 2}};
    P.real_components = {"src/PrePost/{Mesher,Import,Export}, src/FEM/Equation, src/FEM/Controller, src/Optimize (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap with injected failures)", "file system (in-memory disk)", "libgomp and thread scheduling (simulated)", "std::cout (captured)", "user functions (throw or call back on a seeded plan)"};
    P.assumptions = {"sequentially consistent memory", "user functions are pure apart from throwing or calling the library", "optimisation problems are convex, so the inner loops end"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 25; P.thorough_seconds = 900;
    return P;
}
