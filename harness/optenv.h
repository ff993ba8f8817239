// Optimisation problems (sum c_i/x_i subject to weighted volumes) and drivers for the three optimisers.
#pragma once
#include "catalog.h"
#include <cmath>
#include <iostream>
#include <algorithm>
#include "Optimize/Solver/OC.h"
#include "Optimize/Solver/MMA.h"
#include "Optimize/Solver/CONLIN.h"
#include "Optimize/Filter/DensityFilter.h"
#include "Optimize/Filter/HeavisideFilter.h"
#include "Optimize/Filter/SensitivityFilter.h"
using namespace PANSFEM2;
struct FilterIn {
    int n; std::vector<std::vector<int> > nb; std::vector<std::vector<double> > w; std::vector<double> s, df;
    void digest(Out& o) const { put(o, nb); put(o, w); put(o, s); put(o, df); }
};
inline FilterIn gen_filter(Rng& g) {
    FilterIn f; f.n = size_of(g, 1, 14, 300);
    for (int i = 0; i < f.n; i++) { std::vector<int> q(1, i); std::vector<double> w(1, g.uniform(0.1, 2)); int k = g.range(0, 4); for (int j = 0; j < k; j++) { q.push_back((int)g.below(f.n)); w.push_back(g.uniform(0.01, 2)); } f.nb.push_back(q); f.w.push_back(w); f.s.push_back(g.uniform(0.05, 1)); f.df.push_back(g.uniform(-5, 1)); }
    return f;
}
template <class F> auto filt_vars(F& f, const FilterIn& in, std::vector<double>& r, Out& o, int) -> decltype(f.GetFilteredVariables(in.s), void()) { { sim::Lib l; r = f.GetFilteredVariables(in.s); } put(o, r); }
template <class F> void filt_vars(F&, const FilterIn&, std::vector<double>&, Out&, long) {}

struct Prob {
    int n, m; std::vector<double> c, x0, xmin, xmax; std::vector<std::vector<double> > w; std::vector<double> vmax; double move, lmin, lmax, leps; bool params;
    double f(const std::vector<double>& x) const { double s = 0; for (int i = 0; i < n; i++) s += c[i] / x[i]; return s; }
    std::vector<double> df(const std::vector<double>& x) const { std::vector<double> d(n); for (int i = 0; i < n; i++) d[i] = -c[i] / (x[i] * x[i]); return d; }
    double gk(int k, const std::vector<double>& x) const { double s = 0; for (int i = 0; i < n; i++) s += w[k][i] * x[i]; return s / vmax[k] - 1; }
    std::vector<double> dg(int k) const { std::vector<double> d(n); for (int i = 0; i < n; i++) d[i] = w[k][i] / vmax[k]; return d; }
    void digest(Out& o) const { put(o, c); put(o, x0); put(o, xmin); put(o, xmax); put(o, w); put(o, vmax); }
};
inline Prob gen_prob(Rng& g, int maxm) {
    Prob p; p.n = size_of(g, 2, 10, 60); p.m = g.range(1, maxm);
    for (int i = 0; i < p.n; i++) { p.c.push_back(g.uniform(0.1, 5)); p.xmin.push_back(g.uniform(0.01, 0.05)); p.xmax.push_back(g.uniform(0.9, 1.0)); p.x0.push_back(g.uniform(0.2, 0.8)); }
    for (int k = 0; k < p.m; k++) { std::vector<double> w; double s = 0; for (int i = 0; i < p.n; i++) { w.push_back(g.uniform(0.2, 2)); s += w[i]; } p.w.push_back(w); p.vmax.push_back(s * g.uniform(0.3, 0.7)); }
    p.move = g.uniform(0.1, 0.4); p.lmin = 0; p.lmax = 1e4; p.leps = g.pick(std::vector<double>{1e-3, 1e-6}); if (g.chance(0.05)) p.leps = 1; if (g.chance(0.05)) p.lmin = p.lmax = g.uniform(0.01, 10); p.params = g.chance(0.3);
    if (g.chance(0.3)) for (int i = 0; i < p.n; i++) if (g.chance(0.5)) { p.xmin[i] = p.x0[i] * g.uniform(0.3, 0.95); p.xmax[i] = std::min(1.0, p.x0[i] * g.uniform(1.05, 3)); }
    return p;
}
// what the object says about convergence, asked at values on both sides of the usual tolerances; asking must change nothing
template <class O> void ask(O& h, double f, Out& o) { static const double rel[] = {0, 1e-6, -1e-6, 1.5e-5, 2.5e-5, -2.5e-5, 1.5e-4, 2.5e-4, 0.1, -0.5, 1e-6}; for (double r : rel) { bool b; { sim::Lib l; b = h.IsConvergence(f * (1 + r)); } put(o, b); } }
// the largest relative change the object still calls converged, found by bisection
template <class O> double tolerance(O& h, double f) { double lo = 0, hi = 1; for (int k = 0; k < 40; k++) { double m = 0.5 * (lo + hi); bool b; { sim::Lib l; b = h.IsConvergence(f * (1 + m)); } if (b) lo = m; else hi = m; } return lo; }
// questions nobody asks when the optimisation runs alone
template <class O> void idle(O& h, double f, u64 k) { sim::Rng g(k); int n = g.range(0, 6); for (int i = 0; i < n; i++) { double v = g.chance(0.2) ? 0.0 : f * g.uniform(0.5, 1.5); sim::Lib l; h.IsConvergence(v); } }
template <class O> struct Held { O* o; Held() : o(0) {} ~Held() { sim::Lib l; delete o; } Held(const Held&) = delete; };
struct DriveOC {
    static const int maxm = 1; const Prob& p; Held<OC<double> > h;
    DriveOC(const Prob& q) : p(q) { sim::Lib l; h.o = new OC<double>(p.n, 0.5, p.lmin, p.lmax, p.leps, p.move, p.xmin, p.xmax); }
    void step(std::vector<double>& x, Out& o, u64 q0 = 0) {
        double f = p.f(x), gv = p.gk(0, x); if (q0) idle(*h.o, f, q0); std::vector<double> d = p.df(x), e = p.dg(0); bool cv; const Prob* q = &p;
        sim::cout_clear(sim::self());
        { sim::Lib l; cv = h.o->IsConvergence(f); h.o->UpdateVariables(x, f, d, gv, e, [q](std::vector<double> y) { tick(); return q->gk(0, y); }); }
        put(o, cv); put(o, x); ask(*h.o, f, o); put(o, sim::cout_text(sim::self()));
    }
};
struct DriveMMA {
    static const int maxm = 3; const Prob& p; Held<MMA<double> > h;
    DriveMMA(const Prob& q) : p(q) { sim::Lib l; h.o = new MMA<double>(p.n, p.m, 1.0, std::vector<double>(p.m, 0.0), std::vector<double>(p.m, 10000.0), std::vector<double>(p.m, 0.0), p.xmin, p.xmax); if (p.params) h.o->SetParameters(1e-5, 0.1, p.move, 0.5, 0.7, 1.2, 1e-4); }
    void step(std::vector<double>& x, Out& o, u64 q0 = 0) {
        double f = p.f(x); if (q0) idle(*h.o, f, q0); std::vector<double> d = p.df(x), gv; std::vector<std::vector<double> > e; for (int k = 0; k < p.m; k++) { gv.push_back(p.gk(k, x)); e.push_back(p.dg(k)); } bool cv;
        { sim::Lib l; cv = h.o->IsConvergence(f); h.o->UpdateVariables(x, f, d, gv, e); }
        put(o, cv); put(o, x); ask(*h.o, f, o);
    }
};
struct DriveCON {
    static const int maxm = 2; const Prob& p; Held<CONLIN<double> > h;
    DriveCON(const Prob& q) : p(q) { sim::Lib l; h.o = new CONLIN<double>(p.n, p.m, 1.0, std::vector<double>(p.m, 0.0), std::vector<double>(p.m, 10000.0), std::vector<double>(p.m, 0.0), p.xmin, p.xmax); if (p.params) h.o->SetParameters(p.move, 1e-4); }
    void step(std::vector<double>& x, Out& o, u64 q0 = 0) {
        double f = p.f(x); if (q0) idle(*h.o, f, q0); std::vector<double> d = p.df(x), gv; std::vector<std::vector<double> > e; for (int k = 0; k < p.m; k++) { gv.push_back(p.gk(k, x)); e.push_back(p.dg(k)); } bool cv;
        { sim::Lib l; cv = h.o->IsConvergence(f); h.o->UpdateVariables(x, f, d, gv, e); }
        put(o, cv); put(o, x); ask(*h.o, f, o);
    }
};
