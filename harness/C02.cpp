// C02: iterative solvers and the eigensolver give the same answer whatever the threads do, and say so when they did not converge.
#include "laenv.h"
using namespace sim;
static bool says_failed(const std::string& t) { return t.find("fail") != std::string::npos || t.find("Fail") != std::string::npos; }
struct Task { int k, itr; double eps; std::shared_ptr<Sys> s; bool easy, odd; };
static double resid(const MatModel& m, const std::vector<double>& b, const std::vector<double>& x, double& scale) {
    double r2 = 0; scale = 0; double an = 0, xn = 0;
    for (int i = 0; i < m.rows; i++) { long double s = b[i]; double row = 0; for (auto& e : m.r[i]) { s -= (long double)e.second * x[e.first]; row += std::fabs(e.second); } an = std::max(an, row); r2 += (double)(s * s); xn += x[i] * x[i]; }
    scale = an * std::sqrt(xn); return std::sqrt(r2);
}
static void judge(const Task& t, const std::vector<double>& x, const std::string& text, const char* who) {
    if (x.size() != t.s->b.size()) fail("wrong-size", "%s %s returned %zu values for %zu equations", who, SOLVER[t.k], x.size(), t.s->b.size());
    bool bad = says_failed(text);
    double bn = 0, sc; for (double v : t.s->b) bn += v * v; bn = std::sqrt(bn);
    if (t.odd) { probe("odd_preconditioner"); return; }
    double r = resid(t.s->m, t.s->b, x, sc);
    // CG type: the recursively updated residual drifts from the true one by rounding only.
    // BiCGSTAB type: a near-breakdown (about 1 solve in 1e5, 1 in 2500 for BiCGSTAB2) can separate the two in floating
    // point; so a suspect is confirmed only if at least 2 of 6 other right-hand sides of the same system are false too.
    if (!bad && !(r <= t.eps * bn * 1.05 + 1e-11 * (sc + bn) * (t.itr + 10))) {
        bool confirmed = t.k < NSYM;
        if (!confirmed) { Rng q(t.s->m.nnz() * 131 + t.itr); int nb = 0; probe("breakdown_suspects");
            for (int w = 0; w < 6; w++) {
                std::vector<double> b2(t.s->b.size()), x2; for (auto& e : b2) e = q.uniform(-1, 1); Out res = solo([&](Out& o) { cout_clear(self()); { Lib l; x2 = call_solver<double>(t.k, t.s->A, t.s->M, b2, t.itr, t.eps); } put(o, says_failed(cout_text(self()))); put(o, x2); }, 1);
                if (res.v[0]) continue; x2.resize(b2.size()); for (size_t i = 0; i < x2.size() && i + 2 < res.v.size(); i++) memcpy(&x2[i], &res.v[i + 2], 8);
                double bn2 = 0, sc2; for (double e : b2) bn2 += e * e; bn2 = std::sqrt(bn2); double r2 = resid(t.s->m, b2, x2, sc2); if (!(r2 <= t.eps * bn2 * 1.05 + 1e-11 * (sc2 + bn2) * (t.itr + 10))) nb++;
            }
            confirmed = nb >= 2; }
        if (confirmed) fail("false-convergence", "%s %s reported no failure with residual %.6g (|b| = %.6g, eps = %.3g, limit %d iterations)", who, SOLVER[t.k], r, bn, t.eps, t.itr);
    }
    if (bad && t.easy) fail("no-convergence", "%s %s did not converge on a well conditioned symmetric positive definite system of %d equations within %d iterations (residual %.6g of %.6g)", who, SOLVER[t.k], t.s->m.rows, t.itr, r, bn);
    probe(bad ? "reported_failure" : "reported_success");
}
static Task gen_task(Rng& g, int nmax) {
    Task t; t.k = (int)g.below(NSOLVER); bool sym = t.k < NSYM; int n = g.range(1, nmax); t.easy = sym && t.k != 3 && g.chance(0.5); t.odd = false;
    MatModel m = gen_spd(g, n, g.uniform(1, 4), t.easy ? g.uniform(1.1, 2.0) : g.uniform(1.0, 1.3), sym);
    if (t.easy) { for (int i = 0; i < n; i++) { double s = 0; m.r[i].erase(i); for (auto& e : m.r[i]) { e.second = std::max(-1.0, std::min(1.0, e.second)); } } for (int i = 0; i < n; i++) for (auto& e : m.r[i]) m.r[e.first][i] = e.second; for (int i = 0; i < n; i++) { double s = 0; for (auto& e : m.r[i]) s += std::fabs(e.second); m.r[i][i] = 1.3 * s + 0.5; } }
    Rng g2(g.next()); CSR<double> A = to_csr<double>(m, g2, (int)g.below(2)); CSR<double> M = ILU0(A); std::vector<double> b = gen_vec(g, n); bool z = true; for (double v : b) if (v != 0) z = false; if (z && g.chance(0.8)) b[0] = 1; if (g.chance(0.02)) std::fill(b.begin(), b.end(), 0.0); if (g.chance(0.4)) { double f = std::pow(10.0, g.uniform(-8, 8)); for (auto& v : b) v *= f; }
    t.s.reset(new Sys(m, A, M, b)); t.eps = std::pow(10.0, -g.uniform(1, t.easy ? 8 : 11)); t.itr = t.easy ? 10 * n + 60 : g.chance(0.4) ? g.range(0, 4) : g.range(1, 3 * n + 5);
    if (!t.easy && nmax <= 16 && g.chance(0.12)) { t.eps = g.chance(0.4) ? 0.0 : std::pow(10.0, -g.uniform(12, 19)); t.itr = g.range(40, 250); probe("unreachable_tolerance"); }
    if (!t.easy && g.chance(0.08)) { MatModel p = m; odd_diagonal(g, p); Rng g3(g.next()); CSR<double> M2 = to_csr<double>(p, g3, (int)g.below(2)); t.s.reset(new Sys(m, A, M2, b)); t.odd = true; t.itr = std::min(t.itr, 40); }
    return t;
}
static u64 cost(const Task& t) { return 60000ull + 600ull * (u64)(t.itr + 2) * (u64)(t.s->m.nnz() + 10 * t.s->m.rows + 50); }
static void solve_once(const Task& t, std::vector<double>& x, std::string& text, bool alone) {
    std::vector<double> b0 = t.s->b;
    cout_clear(self());
    if (alone) set_budget(cost(t));
    { Lib l; x = call_solver<double>(t.k, t.s->A, t.s->M, t.s->b, t.itr, t.eps); }
    text = cout_text(self());
    if (b0 != t.s->b) fail("input-changed", "%s changed the right-hand side", SOLVER[t.k]);
}
static void run_tasks(Run& R, int nmax, int callers) {
    Rng& g = R.rng; heap_policy(g.next());
    int per = callers > 1 ? g.range(1, 2) : g.range(1, 3); std::vector<Task> ts; std::vector<int> team; bool share = callers > 1 && g.chance(0.5);
    for (int i = 0; i < callers * per; i++) { ts.push_back(gen_task(g, nmax)); if (share && i) { bool sym = ts[0].k < NSYM; ts[i].s = ts[0].s; if (sym) ts[i].k = (int)g.below(NSOLVER); else ts[i].k = NSYM + (int)g.below(NSOLVER - NSYM); ts[i].easy = false; ts[i].odd = ts[0].odd; ts[i].itr = g.range(1, 30); } team.push_back(callers > 1 ? g.range(1, 3) : g.pick(std::vector<int>{1, 2, 2, 3, 4, 5, 8})); }
    std::string nm; for (auto& t : ts) nm += std::string(SOLVER[t.k]) + "(" + std::to_string(t.s->m.rows) + ") ";
    note("%d callers, team %d, %s", callers, team[0], nm.c_str());
    std::vector<Out> want; for (auto& t : ts) want.push_back(solo([&](Out& o) { std::vector<double> x; std::string s; solve_once(t, x, s, true); put(o, x); put(o, s); }, 1));
    default_sched(g);
    std::vector<Out> in0; for (auto& t : ts) { Out o; put(o, t.s->A); put(o, t.s->M); in0.push_back(o); }
    auto work = [&](int c) { for (int q = 0; q < per; q++) { int i = c * per + q; if (!enabled(i)) continue; set_threads(team[i]); std::vector<double> x; std::string s; solve_once(ts[i], x, s, callers == 1); judge(ts[i], x, s, callers > 1 ? "one of several callers:" : ""); Out o; put(o, x); put(o, s); if (o != want[i]) fail("schedule-dependent", "%s with %d threads gave another answer or message than with one thread: %s", SOLVER[ts[i].k], team[i], diff(want[i], o).c_str()); for (u64 v : o.v) mix_hash(v); } };
    if (callers > 1) { u64 all = 0; for (auto& t : ts) all += cost(t); set_budget(all); for (int c = 0; c < callers; c++) spawn([&, c] { work(c); }); join_all(); probe(share ? "callers_share_system" : "callers_own_systems"); } else work(0);
    for (size_t i = 0; i < ts.size(); i++) { Out o; put(o, ts[i].s->A); put(o, ts[i].s->M); if (o != in0[i]) fail("input-changed", "a solver changed the matrix or preconditioner it was given"); }
}
static void one(Run& R) { run_tasks(R, 16, 1); }
static void mid(Run& R) { run_tasks(R, 60, 1); }
static void big(Run& R) { run_tasks(R, 400, 1); }
static void many(Run& R) { run_tasks(R, 10, R.rng.range(2, 3)); }
// eigenvalues with worker threads: the team size and schedule must not matter, and the answers must be eigenpairs of what was given
static void eigen(Run& R) {
    Rng& g = R.rng; heap_policy(g.next());
    std::shared_ptr<Sys> s = gen_sys(g, 7, true); int n = s->m.rows, m = g.range(1, std::min(2, n)), k = (int)g.below(3), team = g.range(2, 6);
    double sigma = -g.uniform(0, 1); note("eigen kind %d n=%d m=%d team=%d", k, n, m, team);
    auto call = [&](Out& o) { std::vector<double> val; std::vector<std::vector<double> > vec; { Lib l; if (k == 0) Lanczos(s->A, val, vec, m); else if (k == 1) RestartLanczos(s->A, val, vec, m); else ShiftedInvertLanczos(s->A, val, vec, m, sigma); } put(o, val); put(o, vec); };
    Out want = solo([&](Out& o) { call(o); }, 1); default_sched(g); set_threads(team); set_budget(2000000000ull);
    Out o; call(o); if (o != want) fail("schedule-dependent", "eigenvalues with %d threads differ from one thread: %s", team, diff(want, o).c_str());
    for (u64 v : o.v) mix_hash(v);
}
Property& sim::property() {
    static Property P;
    P.id = "C02"; P.level = "exploration";
    P.rule = "Each run draws linear systems (symmetric positive definite or non-symmetric diagonally dominant, well and badly scaled), solvers, tolerances, iteration limits (many too small to converge), OpenMP team sizes, one or several concurrent callers, heap policy and schedule from the run seed. Solution vector and printed messages are compared bit by bit with the same solve alone on one thread; the true residual is recomputed from an independent matrix model. Non-trivial: at least one context switch or team shortage inside a solve; distinct by the hash of workload, schedule and results.";
    P.scenarios = {{"one_caller", one, 8}, {"larger", mid, 3}, {"over_64_equations", big, 1}, {"several_callers", many, 6}, {"eigen", eigen, 1}};
    P.real_components = {"src/LinearAlgebra/Solvers/{CG,Lanczos}.h", "src/LinearAlgebra/Models/{CSR,LILCSR}.h (built from /repo, instrumented)"};
    P.stub_components = {"libgomp (simulated OpenMP runtime)", "operator new/delete (simulated heap)", "thread scheduling (baton scheduler)", "std::cout (captured per caller)"};
    P.assumptions = {"sequentially consistent memory", "preemption points are the compiler-instrumented memory accesses and runtime calls of library code", "'did not converge' is recognised by the word fail in the printed message"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 25; P.thorough_seconds = 900;
    return P;
}
