// C08: containers under allocation failure: a failed operation leaves every container as it was, nothing leaks, and the
// operation succeeds when repeated once memory is available again.
#include "common.h"
#include <memory>
#include <algorithm>
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Models/CSR.h"
using namespace PANSFEM2; using namespace sim;
typedef std::vector<double> DV;
struct MV { DV v; };                                                        // model of Vector
struct MM { int r, c; DV v; MM() : r(0), c(0) {} };                         // model of Matrix
struct MS { int r, c; std::map<std::pair<int, int>, double> e; };           // model of a sparse matrix
struct World {                                                              // objects of one caller, with their models
    std::vector<std::unique_ptr<Vector<double> > > V; std::vector<MV> mv;
    std::vector<std::unique_ptr<Matrix<double> > > M; std::vector<MM> mm;
    std::vector<std::unique_ptr<CSR<double> > > S; std::vector<MS> ms;
    std::vector<std::unique_ptr<LILCSR<double> > > L; std::vector<MS> ml;
    u64 base;
};
static const int NV = 3, NM = 3, NS = 2, NL = 2;
static bool big(const DV& v) { for (double x : v) if (std::fabs(x) > 1e5) return true; return false; }
static double sm(Rng& g) { return (double)g.range(-4, 4); }
static bool eq(Vector<double>& a, const MV& m) { if (a.SIZE() != (int)m.v.size()) return false; for (int i = 0; i < a.SIZE(); i++) if (a(i) != m.v[i]) return false; return true; }
static bool eq(Matrix<double>& a, const MM& m) { if (a.ROW() != m.r || a.COL() != m.c) return false; for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) if (a(i, j) != m.v[i * m.c + j]) return false; return true; }
template <class S> static bool eqs(S& a, const MS& m) {
    if (a.ROWS != m.r || a.COLS != m.c) return false;
    for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) { auto it = m.e.find({i, j}); if (a.get(i, j) != (it == m.e.end() ? 0.0 : it->second)) return false; }
    DV x(m.c), y(m.r, 0.0); for (int j = 0; j < m.c; j++) x[j] = j + 1; for (auto& e : m.e) y[e.first.first] += e.second * x[e.first.second];
    return a * x == y;
}
static void check(World& w, const char* when, const char* op) {
    for (int i = 0; i < NV; i++) { bool ok; { Lib l; ok = eq(*w.V[i], w.mv[i]); } if (!ok) fail("container-corrupted", "%s %s: vector %d does not hold what was stored in it", when, op, i); }
    for (int i = 0; i < NM; i++) { bool ok; { Lib l; ok = eq(*w.M[i], w.mm[i]); } if (!ok) fail("container-corrupted", "%s %s: matrix %d does not hold what was stored in it", when, op, i); }
    for (int i = 0; i < NS; i++) { bool ok; { Lib l; ok = eqs(*w.S[i], w.ms[i]); } if (!ok) fail("container-corrupted", "%s %s: CSR matrix %d does not hold what was stored in it", when, op, i); }
    for (int i = 0; i < NL; i++) { bool ok; { Lib l; ok = eqs(*w.L[i], w.ml[i]); } if (!ok) fail("container-corrupted", "%s %s: LILCSR matrix %d does not hold what was stored in it", when, op, i); }
}
static void init(World& w, Rng& g) {
    for (int i = 0; i < NV; i++) { MV m; int n = g.range(0, 4); for (int k = 0; k < n; k++) m.v.push_back(sm(g)); w.mv.push_back(m); Lib l; if (n == 0 && g.chance(0.7)) w.V.emplace_back(new Vector<double>()); else w.V.emplace_back(new Vector<double>(m.v)); }
    for (int i = 0; i < NM; i++) { MM m; m.r = g.range(0, 4); m.c = g.range(0, 4); if (m.r == 0 && m.c == 0 && g.chance(0.6)) { w.mm.push_back(m); Lib l; w.M.emplace_back(new Matrix<double>()); continue; } for (int k = 0; k < m.r * m.c; k++) m.v.push_back(sm(g)); w.mm.push_back(m); Lib l; w.M.emplace_back(new Matrix<double>(m.r, m.c)); for (int a = 0; a < m.r; a++) for (int b = 0; b < m.c; b++) (*w.M[i])(a, b) = m.v[a * m.c + b]; }
    int r = g.range(1, 5), c = g.range(1, 5);
    for (int i = 0; i < NS; i++) { MS m; m.r = r; m.c = c; w.ms.push_back(m); Lib l; w.S.emplace_back(new CSR<double>(r, c)); }
    for (int i = 0; i < NL; i++) { MS m; m.r = r; m.c = c; w.ml.push_back(m); Lib l; w.L.emplace_back(new LILCSR<double>(r, c)); }
}
// one operation: run() does it on the real objects, apply() on the models and checks what was returned
struct Action { std::string name; std::function<void()> run; std::function<void()> apply; };
static void want(bool ok, const std::string& name) { if (!ok) fail("wrong-result", "%s returned something else than the model", name.c_str()); }
static bool regular(const MM& m, double& det) {     // square, small, of moderate size, and well away from singular (integer determinant, exact)
    if (m.r != m.c || m.r < 1 || m.r > 4) return false; for (double x : m.v) if (std::fabs(x) > 50) return false;
    std::vector<int> p(m.r); for (int i = 0; i < m.r; i++) p[i] = i; det = 0;
    do { int s = 1; for (int i = 0; i < m.r; i++) for (int j = i + 1; j < m.r; j++) if (p[j] < p[i]) s = -s; double t = s; for (int i = 0; i < m.r; i++) t *= m.v[i * m.r + p[i]]; det += t; } while (std::next_permutation(p.begin(), p.end()));
    return det != 0;
}
static Action gen(World& w, Rng& g) {
    Action A; int k = (int)g.below(28); int a = (int)g.below(NV), b = (int)g.below(NV), p = (int)g.below(NM), q = (int)g.below(NM), t = (int)g.below(NM), s = (int)g.below(NS), s2 = (int)g.below(NS), l = (int)g.below(NL), l2 = (int)g.below(NL); double f = sm(g);
    auto& W = w;
    switch (k) {
        case 0: A.name = "Vector copy assignment"; A.run = [&W, a, b] { *W.V[a] = *W.V[b]; }; A.apply = [&W, a, b] { W.mv[a] = W.mv[b]; }; break;
        case 1: { DV v; int n = g.range(0, 5); for (int i = 0; i < n; i++) v.push_back(sm(g)); auto vv = std::make_shared<DV>(v); A.name = "Vector assignment from a temporary"; A.run = [&W, a, vv] { *W.V[a] = Vector<double>(*vv); }; A.apply = [&W, a, vv] { W.mv[a].v = *vv; }; break; }
        case 2: A.name = "Vector Vstack"; A.run = [&W, a, b] { if (W.V[a]->SIZE() > 40) return; *W.V[a] = W.V[a]->Vstack(*W.V[b]); }; A.apply = [&W, a, b] { if (W.mv[a].v.size() > 40) return; DV y = W.mv[b].v; W.mv[a].v.insert(W.mv[a].v.end(), y.begin(), y.end()); }; break;
        case 3: A.name = "Vector scaled sum"; A.run = [&W, a, b, f] { if (W.V[a]->SIZE() != W.V[b]->SIZE() || big(W.mv[b].v)) return; *W.V[a] = *W.V[a] - (*W.V[b]) * f; }; A.apply = [&W, a, b, f] { if (W.mv[a].v.size() != W.mv[b].v.size() || big(W.mv[b].v)) return; DV y = W.mv[b].v; for (size_t i = 0; i < y.size(); i++) { double& z = W.mv[a].v[i]; z -= y[i] * f; } }; break;
        case 4: A.name = "Matrix copy assignment"; A.run = [&W, p, q] { *W.M[p] = *W.M[q]; }; A.apply = [&W, p, q] { W.mm[p] = W.mm[q]; }; break;
        case 5: A.name = "Matrix transpose"; A.run = [&W, p, q] { *W.M[p] = W.M[q]->Transpose(); }; A.apply = [&W, p, q] { MM m; m.r = W.mm[q].c; m.c = W.mm[q].r; m.v.resize(m.r * m.c); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) m.v[i * m.c + j] = W.mm[q].v[j * m.r + i]; W.mm[p] = m; }; break;
        case 6: A.name = "Matrix product"; A.run = [&W, p, q, t] { if (W.M[q]->COL() != W.M[t]->ROW() || big(W.mm[q].v) || big(W.mm[t].v)) return; *W.M[p] = (*W.M[q]) * (*W.M[t]); }; A.apply = [&W, p, q, t] { MM &x = W.mm[q], &y = W.mm[t]; if (x.c != y.r || big(x.v) || big(y.v)) return; MM m; m.r = x.r; m.c = y.c; m.v.assign(m.r * m.c, 0.0); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) for (int k = 0; k < x.c; k++) m.v[i * m.c + j] += x.v[i * x.c + k] * y.v[k * y.c + j]; W.mm[p] = m; }; break;
        case 7: A.name = "Matrix Vstack"; A.run = [&W, p, q, t] { if (W.M[q]->COL() != W.M[t]->COL() || W.M[q]->ROW() > 16) return; *W.M[p] = W.M[q]->Vstack(*W.M[t]); }; A.apply = [&W, p, q, t] { MM x = W.mm[q], y = W.mm[t]; if (x.c != y.c || x.r > 16) return; x.r += y.r; x.v.insert(x.v.end(), y.v.begin(), y.v.end()); W.mm[p] = x; }; break;
        case 8: A.name = "Matrix Hstack"; A.run = [&W, p, q, t] { if (W.M[q]->ROW() != W.M[t]->ROW() || W.M[q]->COL() > 16) return; *W.M[p] = W.M[q]->Hstack(*W.M[t]); }; A.apply = [&W, p, q, t] { MM x = W.mm[q], y = W.mm[t]; if (x.r != y.r || x.c > 16) return; MM m; m.r = x.r; m.c = x.c + y.c; for (int i = 0; i < m.r; i++) { for (int j = 0; j < x.c; j++) m.v.push_back(x.v[i * x.c + j]); for (int j = 0; j < y.c; j++) m.v.push_back(y.v[i * y.c + j]); } W.mm[p] = m; }; break;
        case 9: A.name = "Matrix from vector and back"; A.run = [&W, a, p] { Matrix<double> m(*W.V[a]); *W.M[p] = m; }; A.apply = [&W, a, p] { MM m; m.r = (int)W.mv[a].v.size(); m.c = 1; m.v = W.mv[a].v; W.mm[p] = m; }; break;
        case 10: A.name = "Matrix times Vector"; A.run = [&W, a, b, p] { if (W.M[p]->COL() != W.V[b]->SIZE() || big(W.mm[p].v) || big(W.mv[b].v)) return; *W.V[a] = (*W.M[p]) * (*W.V[b]); }; A.apply = [&W, a, b, p] { MM& m = W.mm[p]; if (m.c != (int)W.mv[b].v.size() || big(m.v) || big(W.mv[b].v)) return; DV y(m.r, 0.0); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) y[i] += m.v[i * m.c + j] * W.mv[b].v[j]; W.mv[a].v = y; }; break;
        case 11: A.name = "Diagonal"; A.run = [&W, a, p] { if (W.V[a]->SIZE() > 8) return; *W.M[p] = Diagonal(*W.V[a]); }; A.apply = [&W, a, p] { int n = (int)W.mv[a].v.size(); if (n > 8) return; MM m; m.r = m.c = n; m.v.assign(n * n, 0.0); for (int i = 0; i < n; i++) m.v[i * n + i] = W.mv[a].v[i]; W.mm[p] = m; }; break;
        case 12: A.name = "Matrix Cofactor"; A.run = [&W, p, q] { if (W.M[q]->ROW() < 2 || W.M[q]->COL() < 2) return; *W.M[p] = W.M[q]->Cofactor(0, 1); }; A.apply = [&W, p, q] { MM x = W.mm[q]; if (x.r < 2 || x.c < 2) return; MM m; m.r = x.r - 1; m.c = x.c - 1; for (int i = 1; i < x.r; i++) for (int j = 0; j < x.c; j++) if (j != 1) m.v.push_back(x.v[i * x.c + j]); W.mm[p] = m; }; break;
        case 13: case 14: case 15: { int i = (int)g.below(w.ms[s].r), j = (int)g.below(w.ms[s].c); auto r = std::make_shared<bool>(false); A.name = "CSR set"; A.run = [&W, s, i, j, f, r] { *r = W.S[s]->set(i, j, f); }; A.apply = [&W, s, i, j, f, r] { bool had = W.ms[s].e.count({i, j}) > 0; W.ms[s].e[{i, j}] = f; want(*r == had, "CSR set"); }; break; }
        case 16: case 17: { int i = (int)g.below(w.ml[l].r), j = (int)g.below(w.ml[l].c); auto r = std::make_shared<bool>(false); A.name = "LILCSR set"; A.run = [&W, l, i, j, f, r] { *r = W.L[l]->set(i, j, f); }; A.apply = [&W, l, i, j, f, r] { bool had = W.ml[l].e.count({i, j}) > 0; W.ml[l].e[{i, j}] = f; want(*r == had, "LILCSR set"); }; break; }
        case 18: A.name = "CSR from LILCSR"; A.run = [&W, s, l] { std::unique_ptr<CSR<double> > n(new CSR<double>(*W.L[l])); W.S[s].swap(n); }; A.apply = [&W, s, l] { W.ms[s] = W.ml[l]; }; break;
        case 19: A.name = "LILCSR from CSR"; A.run = [&W, s, l] { std::unique_ptr<LILCSR<double> > n(new LILCSR<double>(*W.S[s])); W.L[l].swap(n); }; A.apply = [&W, s, l] { W.ml[l] = W.ms[s]; }; break;
        case 20: A.name = "CSR arithmetic"; A.run = [&W, s, s2, f] { std::unique_ptr<CSR<double> > n(new CSR<double>(f > 0 ? *W.S[s] + *W.S[s2] : f < -2 ? *W.S[s] * 1.0 : *W.S[s] - *W.S[s2])); W.S[s].swap(n); }; A.apply = [&W, s, s2, f] { if (f < -2) return; MS y = W.ms[s2]; for (auto& e : y.e) W.ms[s].e[e.first] += f > 0 ? e.second : -e.second; }; break;
        case 22: case 23: { A.name = "Matrix Inverse and Determinant"; auto out = std::make_shared<DV>(); auto det = std::make_shared<double>(0); A.run = [&W, p, out, det] { double d; if (!regular(W.mm[p], d)) return; *det = W.M[p]->Determinant(); Matrix<double> m = W.M[p]->Inverse(); NoLib n; out->clear(); for (int i = 0; i < m.ROW(); i++) for (int j = 0; j < m.COL(); j++) out->push_back(m(i, j)); };
            A.apply = [&W, p, out, det] { MM& m = W.mm[p]; double d; if (!regular(m, d)) return; want((int)out->size() == m.r * m.r && std::fabs(*det - d) <= 1e-6 * (1 + std::fabs(d)), "Matrix Determinant"); double mx = 0; for (double x : *out) mx = std::max(mx, std::fabs(x)); for (int i = 0; i < m.r; i++) for (int j = 0; j < m.r; j++) { double s = i == j ? -1 : 0, a = 0; for (int q = 0; q < m.r; q++) { s += m.v[i * m.r + q] * (*out)[q * m.r + j]; a += std::fabs(m.v[i * m.r + q]) * mx; } want(std::fabs(s) <= 1e-9 * (1 + a), "Matrix Inverse"); } }; break; }
        case 24: { int n = g.range(2, 4); DV e; for (int i = 0; i < n * n; i++) e.push_back(sm(g)); A.name = "Matrix assignment from a square temporary"; auto ee = std::make_shared<DV>(e); A.run = [&W, p, n, ee] { Matrix<double> m(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = (*ee)[i * n + j]; *W.M[p] = m; }; A.apply = [&W, p, n, ee] { MM m; m.r = m.c = n; m.v = *ee; W.mm[p] = m; }; break; }
        case 25: A.name = "Matrix Block"; A.run = [&W, p, q] { if (W.M[q]->ROW() < 2 || W.M[q]->COL() < 2) return; *W.M[p] = W.M[q]->Block(1, 1, W.M[q]->ROW() - 1, W.M[q]->COL() - 1); }; A.apply = [&W, p, q] { MM x = W.mm[q]; if (x.r < 2 || x.c < 2) return; MM m; m.r = x.r - 1; m.c = x.c - 1; for (int i = 1; i < x.r; i++) for (int j = 1; j < x.c; j++) m.v.push_back(x.v[i * x.c + j]); W.mm[p] = m; }; break;
        case 26: A.name = "Vector Segment"; A.run = [&W, a, b] { if (W.V[b]->SIZE() < 2) return; *W.V[a] = W.V[b]->Segment(1, W.V[b]->SIZE()); }; A.apply = [&W, a, b] { DV y = W.mv[b].v; if (y.size() < 2) return; y.erase(y.begin()); W.mv[a].v = y; }; break;
        default: A.name = "LILCSR arithmetic"; A.run = [&W, l, l2, f] { std::unique_ptr<LILCSR<double> > n(new LILCSR<double>(f > 0 ? *W.L[l] + *W.L[l2] : f < -2 ? *W.L[l] / 1.0 : *W.L[l] - *W.L[l2])); W.L[l].swap(n); }; A.apply = [&W, l, l2, f] { if (f < -2) return; MS y = W.ml[l2]; for (auto& e : y.e) W.ml[l].e[e.first] += f > 0 ? e.second : -e.second; }; break;
    }
    return A;
}
static bool attempt(Action& A) { try { Lib l; A.run(); return true; } catch (const std::bad_alloc&) { return false; } catch (const std::exception& e) { fail("exception", "%s threw %s instead of std::bad_alloc when memory ran out", A.name.c_str(), e.what()); } }
static void destroy(World& w) { Lib l; w.V.clear(); w.V.shrink_to_fit(); w.M.clear(); w.M.shrink_to_fit(); w.S.clear(); w.S.shrink_to_fit(); w.L.clear(); w.L.shrink_to_fit(); }
// every allocation of every operation of a history fails once, in turn
static void every_point(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g);
    World w; LeakMark mark0 = leak_mark(); w.V.reserve(NV); w.M.reserve(NM); w.S.reserve(NS); w.L.reserve(NL);
    init(w, g); int n = g.range(1, 12); note("history of %d container operations, every allocation failing in turn", n);
    check(w, "before", "the history");
    for (int o = 0; o < n; o++) {
        Action A = gen(w, g); if (!enabled(o)) continue;
        int span = g.chance(0.5) ? 1 : g.range(2, 50);
        for (int k = 0;; k++) {
            if (k > 400) fail("no-progress", "%s still fails although only %d allocations were refused", A.name.c_str(), k);
            u64 f0 = alloc_failures(); alloc_fail_at(alloc_count() + k, span);
            bool ok = attempt(A); alloc_fail_clear();
            bool failed = alloc_failures() != f0; mix_hash(o * 1000 + k * 2 + ok);
            if (ok) { A.apply(); check(w, "after", A.name.c_str()); if (failed) probe("failure_absorbed"); break; }
            probe("operations_failed");
            check(w, "after failed", A.name.c_str());
        }
    }
    destroy(w);
    if (leaked(mark0)) fail("leak", "%lld blocks still allocated after every container was destroyed", (long long)leaked(mark0));
}
// several callers with their own containers while memory is short at random
static void callers(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); int nc = g.range(1, 3); LeakMark mark0 = leak_mark();
    double p = g.chance(0.5) ? g.uniform(0.01, 0.1) : g.uniform(0.1, 0.5); int n = g.range(2, 25); note("%d callers, %d operations each, every allocation fails with probability %.3f", nc, n, p);
    std::vector<World> ws(nc); std::vector<Rng> gs; for (int c = 0; c < nc; c++) { World& w = ws[c]; w.V.reserve(NV); w.M.reserve(NM); w.S.reserve(NS); w.L.reserve(NL); init(w, g); gs.push_back(Rng(g.next())); }
    alloc_fail_random(p);
    for (int c = 0; c < nc; c++) spawn([&, c] {
        World& w = ws[c];
        for (int o = 0; o < n; o++) {
            Action A = gen(w, gs[c]); if (!enabled(c * n + o)) continue;
            bool ok = attempt(A); mix_hash(o * 2 + ok);
            if (ok) A.apply(); else probe("operations_failed");
            yield_point();
        }
    });
    join_all(); alloc_fail_clear();
    for (auto& w : ws) check(w, "after", "a history with allocation failures");
    for (auto& w : ws) destroy(w);
    if (leaked(mark0)) fail("leak", "%lld blocks still allocated after every container was destroyed", (long long)leaked(mark0));
}
Property& sim::property() {
    static Property P;
    P.id = "C08"; P.level = "fault_enumeration";
    P.rule = "Each run draws a history of operations on live Vector, Matrix, CSR and LILCSR objects (assignments, products, stacking, set, conversions, sparse arithmetic). In every_point each operation is repeated with its first, second, third ... allocation refused until it goes through, and after every refusal all objects are compared with their models; in callers several callers run histories while allocations fail at random. Distinct by the hash of workload, fault points and outcomes; non-trivial: at least one allocation refused or one context switch.";
    P.scenarios = {{"every_point", every_point, 3}, {"callers", callers, 2}};
    P.real_components = {"src/LinearAlgebra/Models/{Vector,Matrix,CSR,LILCSR}.h (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap with injected failures)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"every heap allocation of the library goes through operator new", "entries are small integers so that the models are exact"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
