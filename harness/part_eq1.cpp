// scalar field equations, shape functions, quadrature tables, general helpers
#include "eqenv.h"
#include <algorithm>
#include "FEM/Equation/Advection.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/ReactionDiffusion.h"
#include "FEM/Equation/General.h"
#include "FEM/Equation/Numeric.h"
#include "FEM/Equation/Truss.h"
using namespace PANSFEM2;
static double flux(Vector<double> x) { tick(); return 1.0 + 0.3 * x(0); }
static double react(double u, Vector<double> d) { tick(); return u * u + 0.2 * d(0); }

template <template <class> class SF> static void reg_sf(const char* name) {
    reg(name, "element", [](Rng& g) {
        auto pts = std::make_shared<std::vector<Vector<double> > >();
        int dim = Vector<double>(SF<double>::Points[0]).SIZE();
        int n = g.range(1, 6); for (int i = 0; i < n; i++) { Vector<double> r(dim); for (int d = 0; d < dim; d++) r(d) = g.uniform(-1, 1); pts->push_back(r); }
        Case c; c.run = [pts](Out& o) { for (auto& r : *pts) { Vector<double> N; Matrix<double> D; { sim::Lib l; N = SF<double>::N(r); D = SF<double>::dNdr(r); } put(o, N); put(o, D); } put(o, SF<double>::Points); };
        c.inputs = [pts](Out& o) { put(o, *pts); };
        return c; }, 2);
}
template <template <class> class IC> static void reg_ic(const char* name) {
    reg(name, "element", [](Rng&) { Case c; c.run = [](Out& o) { o.i(IC<double>::N); { sim::Lib l; double s = 0; for (int i = 0; i < IC<double>::N; i++) { double w = 1; for (auto& q : IC<double>::Weights[i]) w *= q; Vector<double> p = IC<double>::Points[i]; s += w * p(0); } sim::NoLib nl; o.d(s); } put(o, IC<double>::Points); put(o, IC<double>::Weights); }; return c; }, 1);
}
static void all() {
    EQ_K(Advection, ShapeFunction3Triangle, Gauss1Triangle, 2, 1, E.r[0], E.r[1]);
    EQ_K(Advection, ShapeFunction4Square, Gauss4Square, 2, 1, E.r[0], E.r[1]);
    EQ_K(AdvectionSUPG, ShapeFunction3Triangle, Gauss1Triangle, 2, 1, E.r[0], E.r[1], E.r[2]);
    EQ_K(AdvectionShockCapturing, ShapeFunction3Triangle, Gauss3Triangle, 2, 1, E.r[0], E.r[1], E.r[2]);
    EQ_K(Diffusion, ShapeFunction6Triangle, Gauss3Triangle, 2, 1, E.r[0]);
    EQ_K(Mass, ShapeFunction3Triangle, Gauss3Triangle, 2, 1);
    EQ_K(MassSUPG, ShapeFunction4Square, Gauss4Square, 2, 1, E.r[0], E.r[1], E.r[2]);
    EQ_K(HeatTransfer, ShapeFunction3Triangle, Gauss1Triangle, 2, 1, E.r[0], E.r[1]);
    EQ_K(HeatTransfer, ShapeFunction8Square, Gauss9Square, 2, 1, E.r[0], E.r[1]);
    EQ_K(HeatCapacity, ShapeFunction4Square, Gauss4Square, 2, 1, E.r[0], E.r[1], E.r[2]);
    EQ_F(HeatTransferSurfaceFlux, ShapeFunction2Line, Gauss2Line, 2, 1, flux, E.r[0]);
    EQ_F(HeatTransferSurfaceFlux, ShapeFunction3Line, Gauss2Line, 2, 1, flux, E.r[0]);
    EQ_K(ReactionDiffusionConsistentMass, ShapeFunction4Square, Gauss4Square, 2, 1);
    EQ_K(ReactionDiffusionLumpedMass, ShapeFunction4Square, Gauss4Square, 2, 1);
    EQ_K(ReactionDiffusionStiffness, ShapeFunction4Square, Gauss4Square, 2, 1, E.r[0]);
    EQ_F(ReactionDiffusionReaction, ShapeFunction4Square, Gauss4Square, 2, 1, E.u, react);
    reg_eq<ShapeFunction2Line>("Truss2D", 2, 2, 99, [](Env& E, int q, Out& o) { Matrix<double> K = left_m(); N2E n = left_n(); { sim::Lib l; Truss2D<double>(K, n, E.el[q], E.dou, E.x, E.r[0], E.r[1]); } put(o, K); put(o, n); });
    reg_eq<ShapeFunction4Square>("WeakSpring", 2, 2, 99, [](Env& E, int q, Out& o) { Matrix<double> K = left_m(); N2E n = left_n(); { sim::Lib l; WeakSpring<double>(K, n, E.el[q], E.dou, E.x, E.r[0]); } put(o, K); put(o, n); });
    reg_eq<ShapeFunction4Square>("Area4", 2, 2, 99, [](Env& E, int q, Out& o) { double a; Vector<double> c; { sim::Lib l; a = Area<double, ShapeFunction4Square, Gauss4Square>(E.x, E.el[q]); c = CenterOfGravity<double>(E.x, E.el[q]); } o.d(a); put(o, c); });
    reg_eq<ShapeFunction6Triangle>("Area6", 2, 2, 99, [](Env& E, int q, Out& o) { double a; { sim::Lib l; a = Area<double, ShapeFunction6Triangle, Gauss3Triangle>(E.x, E.el[q]); } o.d(a); });
    reg_eq<ShapeFunction8Cubic>("Volume8", 3, 3, 99, [](Env& E, int q, Out& o) { double a; Vector<double> c; { sim::Lib l; a = Volume<double, ShapeFunction8Cubic, Gauss8Cubic>(E.x, E.el[q]); c = CenterOfGravity<double>(E.x, E.el[q]); } o.d(a); put(o, c); });
    reg_eq<ShapeFunction4Tetrahedron>("Volume4", 3, 3, 99, [](Env& E, int q, Out& o) { double a; { sim::Lib l; a = Volume<double, ShapeFunction4Tetrahedron, Gauss1Tetrahedron>(E.x, E.el[q]); } o.d(a); });
    reg_eq<ShapeFunction2Line>("NumericIntegrationOnLine", 1, 1, 99, [](Env& E, int q, Out& o) { double a; { sim::Lib l; a = NumericIntegrationOnLine<double, ShapeFunction2Line, Gauss2Line>(E.x, E.el[q], flux); } o.d(a); });
    reg_eq<ShapeFunction4Square>("ElementVector", 2, 2, 99, [](Env& E, int q, Out& o) {
        N2E n(4); std::vector<N2E> nn(2); for (int i = 0; i < 4; i++) { n[i] = {{0, 2 * i}, {1, 2 * i + 1}}; } nn[0] = n; nn[1] = N2E(4); for (int i = 0; i < 4; i++) nn[1][i] = {{2, 8 + i}};
        std::vector<std::vector<int> > els = {E.el[q], E.el[q]};
        Vector<double> a, b; { sim::Lib l; a = ElementVector<double>(E.u, n, E.el[q]); b = ElementVector<double>(E.u, nn, els); } put(o, a); put(o, b); });
    reg_eq<ShapeFunction4Square>("InterpolateFields", 2, 2, 99, [](Env& E, int, Out& o) {
        std::vector<double> ue(E.el.size()), un(E.x.size()); for (size_t i = 0; i < ue.size(); i++) ue[i] = E.r[i % 10]; for (size_t i = 0; i < un.size(); i++) un[i] = E.r[i % 10];
        std::vector<Vector<double> > uv; for (size_t i = 0; i < ue.size(); i++) uv.push_back(Vector<double>({ue[i], 1.0}));
        std::vector<double> a, b; std::vector<Vector<double> > c, d; { sim::Lib l; a = InterpolateNodalFromElemental<double>((int)E.x.size(), 0.0, ue, E.el); b = InterpolateElementalFromNodal<double>(0.0, un, E.el); c = InterpolateNodalFromElemental<double, Vector>((int)E.x.size(), Vector<double>(2), uv, E.el); d = InterpolateElementalFromNodal<double, Vector>(Vector<double>(3), E.u, E.el); }
        put(o, a); put(o, b); put(o, c); put(o, d); });
    // fields on a mesh whose elements share nodes, of any size
    reg("InterpolateOnMesh", "element", [](Rng& g) {
        struct F { std::vector<double> ue, un; std::vector<Vector<double> > ve, vn; std::vector<std::vector<int> > el; int nn; };
        auto f = std::make_shared<F>(); int ne = g.chance(0.15) ? g.range(12, 120) : g.range(1, 12); f->nn = g.range(2, ne + 6);
        for (int i = 0; i < ne; i++) { std::vector<int> e; int k = g.range(1, 5); for (int j = 0; j < k; j++) e.push_back((int)g.below(f->nn)); f->el.push_back(e); f->ue.push_back(g.uniform(-3, 3)); f->ve.push_back(Vector<double>({g.uniform(-3, 3), g.uniform(-3, 3)})); }
        for (int i = 0; i < f->nn; i++) { f->un.push_back(g.uniform(-3, 3)); f->vn.push_back(Vector<double>({g.uniform(-3, 3), g.uniform(-3, 3), 1.0})); }
        Case c; c.run = [f](Out& o) { std::vector<double> a, b; std::vector<Vector<double> > x, y; Vector<double> m; { sim::Lib l; a = InterpolateNodalFromElemental<double>(f->nn, 0.0, f->ue, f->el); b = InterpolateElementalFromNodal<double>(0.0, f->un, f->el); x = InterpolateNodalFromElemental<double, Vector>(f->nn, Vector<double>(2), f->ve, f->el); y = InterpolateElementalFromNodal<double, Vector>(Vector<double>(3), f->vn, f->el); m = CenterOfGravity<double>(f->vn, f->el[f->el.size() / 2]); } put(o, a); put(o, b); put(o, x); put(o, y); put(o, m); };
        c.inputs = [f](Out& o) { put(o, f->ue); put(o, f->un); put(o, f->ve); put(o, f->vn); put(o, f->el); };
        return c; }, 12);
    reg("LagrangeInterpolation", "element", [](Rng& g) { auto xs = std::make_shared<std::vector<double> >(); int n = size_of(g, 1, 6, 24); for (int i = 0; i < n; i++) xs->push_back(i + g.uniform(0, 0.5)); double x = g.uniform(0, n);
        Case c; c.run = [xs, x](Out& o) { std::vector<double> a, b; { sim::Lib l; a = LagrangeInterpolation<double>(*xs, x); b = LagrangeInterpolationDerivative<double>(*xs, x); } put(o, a); put(o, b); }; c.inputs = [xs](Out& o) { put(o, *xs); }; return c; }, 2);
    reg_sf<ShapeFunction2Line>("N2Line"); reg_sf<ShapeFunction3Line>("N3Line"); reg_sf<ShapeFunction3Triangle>("N3Triangle"); reg_sf<ShapeFunction6Triangle>("N6Triangle");
    reg_sf<ShapeFunction4Square>("N4Square"); reg_sf<ShapeFunction8Square>("N8Square"); reg_sf<ShapeFunction4Tetrahedron>("N4Tetrahedron"); reg_sf<ShapeFunction8Cubic>("N8Cubic"); reg_sf<ShapeFunction20Cubic>("N20Cubic");
    reg_ic<Gauss1Line>("Q1Line"); reg_ic<Gauss2Line>("Q2Line"); reg_ic<Gauss1Triangle>("Q1Triangle"); reg_ic<Gauss3Triangle>("Q3Triangle"); reg_ic<Gauss1Square>("Q1Square"); reg_ic<Gauss4Square>("Q4Square"); reg_ic<Gauss9Square>("Q9Square");
    reg_ic<Gauss1Tetrahedron>("Q1Tetrahedron"); reg_ic<Gauss8Cubic>("Q8Cubic"); reg_ic<Gauss27Cubic>("Q27Cubic"); reg_ic<NewtonCotes1Line>("NC1"); reg_ic<NewtonCotes3Line>("NC3"); reg_ic<NewtonCotes5Line>("NC5"); reg_ic<NewtonCotes7Line>("NC7");
}
static AtStart at(all);
