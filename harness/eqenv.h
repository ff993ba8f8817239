// Shared element-evaluation environment: nodes, nodal fields and elements of one shape.
#pragma once
#include "catalog.h"
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "FEM/Controller/ShapeFunction.h"
#include "FEM/Controller/GaussIntegration.h"
#include "FEM/Controller/NewtonCotesIntegration.h"
using namespace PANSFEM2;
typedef std::vector<std::vector<std::pair<int, int> > > N2E;
inline void put(Out& o, const Vector<double>& v) { Vector<double>& w = const_cast<Vector<double>&>(v); o.i(w.SIZE()); for (int i = 0; i < w.SIZE(); i++) o.d(w(i)); }
inline void put(Out& o, const Matrix<double>& v) { Matrix<double>& w = const_cast<Matrix<double>&>(v); o.i(w.ROW()); o.i(w.COL()); for (int i = 0; i < w.ROW(); i++) for (int j = 0; j < w.COL(); j++) o.d(w(i, j)); }
inline void put(Out& o, const std::vector<Vector<double> >& v) { o.i((long)v.size()); for (auto& x : v) put(o, x); }

inline Rng left_rng() { static u64 k = 0; return Rng(leftovers() + ++k); }
inline Matrix<double> left_m() { if (!leftovers()) return Matrix<double>(); Rng g = left_rng(); if (g.chance(0.3)) return Matrix<double>(); int r = g.pick(std::vector<int>{1, 2, 3, 4, 6, 8, 12, 16, 24}), c = g.chance(0.8) ? r : g.range(1, 8); Matrix<double> m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = g.uniform(-9, 9); return m; }
inline Vector<double> left_v() { if (!leftovers()) return Vector<double>(); Rng g = left_rng(); if (g.chance(0.3)) return Vector<double>(); int r = g.pick(std::vector<int>{1, 2, 3, 4, 6, 8, 12, 16, 24}); Vector<double> v(r); for (int i = 0; i < r; i++) v(i) = g.uniform(-9, 9); return v; }
inline N2E left_n() { N2E n; if (!leftovers()) return n; Rng g = left_rng(); int k = g.pick(std::vector<int>{0, 2, 3, 4, 6, 8, 9}); for (int i = 0; i < k; i++) { std::vector<std::pair<int, int> > q; int d = g.range(0, 4); for (int j = 0; j < d; j++) q.push_back({(int)g.below(4), (int)g.below(30)}); n.push_back(q); } return n; }
struct Env {
    std::vector<Vector<double> > x, u, up, p, v1, v2, c0, c1, c2;
    std::vector<std::vector<int> > el, elp;     // elements; corner nodes (pressure interpolation)
    std::vector<int> dou; double r[10]; Matrix<double> D, k; std::vector<int> todo;
    void digest(Out& o) const { put(o, x); put(o, u); put(o, up); put(o, p); put(o, v1); put(o, v2); put(o, c0); put(o, c1); put(o, c2); put(o, el); put(o, elp); put(o, dou); put(o, D); put(o, k); }
};
// dim: space dimension; ndof: degrees of freedom per node; ncorner: nodes of the coarser interpolation
template <template <class> class SF> std::shared_ptr<Env> make_env(Rng& g, int dim, int ndof, int ncorner, int many) {
    std::shared_ptr<Env> e(new Env());
    int nel = g.range(1, 4);
    std::vector<Vector<double> > ref;           // nodal points (a repeated table entry is taken once)
    for (auto q : SF<double>::Points) { bool dup = false; for (auto& z : ref) { Vector<double> d = z - q; if (d.Norm() < 1e-12) dup = true; } if (!dup) ref.push_back(q); }
    int nn = (int)ref.size();
    for (int q = 0; q < nel; q++) {
        std::vector<int> ids; double s = g.uniform(0.3, 3) * (g.chance(0.06) ? std::pow(10.0, g.uniform(-6, 6)) : 1.0), a = g.uniform(-0.6, 0.6), st = g.uniform(0.7, 1.4), cx = g.uniform(-5, 5), cy = g.uniform(-5, 5), cz = g.uniform(-5, 5);
        for (int i = 0; i < nn; i++) {
            Vector<double> r = ref[i]; double y[3] = {0, 0, 0};
            for (int d = 0; d < r.SIZE() && d < dim; d++) y[d] = r(d);
            double z[3] = {y[0] * std::cos(a) - y[1] * std::sin(a) * st, y[0] * std::sin(a) + y[1] * std::cos(a) * st, y[2] + 0.1 * y[0]};
            Vector<double> X(dim); for (int d = 0; d < dim; d++) X(d) = s * (z[d] + g.uniform(-0.04, 0.04)) + (d == 0 ? cx : d == 1 ? cy : cz);
            ids.push_back((int)e->x.size()); e->x.push_back(X);
            auto field = [&](int n, double sc) { Vector<double> v(n); for (int k = 0; k < n; k++) v(k) = g.uniform(-sc, sc); return v; };
            e->u.push_back(field(3, 0.05)); e->up.push_back(field(3, 1)); e->p.push_back(field(1, 1)); e->c0.push_back(field(2, 1)); e->c1.push_back(field(2, 1)); e->c2.push_back(field(2, 1));
            Vector<double> a1(3), a2(3); a1(1) = 1; a1(0) = g.uniform(-0.1, 0.1); a2(2) = 1; a2(1) = g.uniform(-0.1, 0.1); e->v1.push_back(a1); e->v2.push_back(a2);
        }
        e->el.push_back(ids); e->elp.push_back(std::vector<int>(ids.begin(), ids.begin() + std::min(ncorner, nn)));
    }
    for (int i = 0; i < ndof; i++) e->dou.push_back(i);
    if (g.chance(0.3)) std::reverse(e->dou.begin(), e->dou.end());
    for (int i = 0; i < 10; i++) { e->r[i] = g.uniform(0.1, 2); if (g.chance(0.03)) e->r[i] = g.pick(std::vector<double>{0.0, 0.5, 1.0, 1e-8, 1e8, -1.0, 2.495}); }
    e->D = Matrix<double>(3, 3); e->k = Matrix<double>(2, 2);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) e->D(i, j) = i == j ? g.uniform(1, 3) : 0.2;
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) e->k(i, j) = i == j ? g.uniform(1, 3) : 0.1;
    int k = g.range(1, many); for (int i = 0; i < k; i++) e->todo.push_back((int)g.below(nel));
    return e;
}
typedef std::function<void(Env&, int, Out&)> EvalFn;
template <template <class> class SF> void reg_eq(const char* name, int dim, int ndof, int ncorner, EvalFn fn, int weight = 3, int many = 3) {
    reg(name, "element", [=](Rng& g) {
        auto e = make_env<SF>(g, dim, ndof, ncorner, many);
        Case c; c.run = [=](Out& o) { for (int q : e->todo) fn(*e, q, o); };
        c.inputs = [=](Out& o) { e->digest(o); };
        return c; }, weight);
}
// element functions by the kind of result they return
#define EQ_K(FN, SF, IC, DIM, ND, ...) reg_eq<SF>(#FN "<" #SF "," #IC ">", DIM, ND, 99, [](Env& E, int q, Out& o) { Matrix<double> Ke = left_m(); N2E n = left_n(); { sim::Lib l; FN<double, SF, IC>(Ke, n, E.el[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Ke); put(o, n); })
#define EQ_K4(FN, SF, IC, IC2, DIM, ND, ...) reg_eq<SF>(#FN "<" #SF "," #IC "," #IC2 ">", DIM, ND, 99, [](Env& E, int q, Out& o) { Matrix<double> Ke = left_m(); N2E n = left_n(); { sim::Lib l; FN<double, SF, IC, IC2>(Ke, n, E.el[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Ke); put(o, n); })
#define EQ_F(FN, SF, IC, DIM, ND, ...) reg_eq<SF>(#FN "<" #SF "," #IC ">", DIM, ND, 99, [](Env& E, int q, Out& o) { Vector<double> Fe = left_v(); N2E n = left_n(); { sim::Lib l; FN<double, SF, IC>(Fe, n, E.el[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Fe); put(o, n); })
#define EQ_KF(FN, SF, IC, DIM, ND, ...) reg_eq<SF>(#FN "<" #SF "," #IC ">", DIM, ND, 99, [](Env& E, int q, Out& o) { Matrix<double> Ke = left_m(); Vector<double> Fe = left_v(); N2E n = left_n(); { sim::Lib l; FN<double, SF, IC>(Ke, Fe, n, E.el[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Ke); put(o, Fe); put(o, n); })
#define EQ_KP(FN, SF, SP, IC, NC, ...) reg_eq<SF>(#FN "<" #SF "," #SP "," #IC ">", 2, 3, NC, [](Env& E, int q, Out& o) { Matrix<double> Ke = left_m(); N2E n = left_n(), m = left_n(); { sim::Lib l; FN<double, SF, SP, IC>(Ke, n, E.el[q], m, E.elp[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Ke); put(o, n); put(o, m); })
#define EQ_FP(FN, SF, SP, IC, NC, ...) reg_eq<SF>(#FN "<" #SF "," #SP "," #IC ">", 2, 3, NC, [](Env& E, int q, Out& o) { Vector<double> Ke = left_v(); N2E n = left_n(), m = left_n(); { sim::Lib l; FN<double, SF, SP, IC>(Ke, n, E.el[q], m, E.elp[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Ke); put(o, n); put(o, m); })
#define EQ_KFP(FN, SF, SP, IC, NC, ...) reg_eq<SF>(#FN "<" #SF "," #SP "," #IC ">", 2, 3, NC, [](Env& E, int q, Out& o) { Matrix<double> Ke = left_m(); Vector<double> Fe = left_v(); N2E n = left_n(), m = left_n(); { sim::Lib l; FN<double, SF, SP, IC>(Ke, Fe, n, E.el[q], m, E.elp[q], E.dou, E.x, ##__VA_ARGS__); } put(o, Ke); put(o, Fe); put(o, n); put(o, m); })
