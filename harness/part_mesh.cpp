// Catalogue: mesh generators. A case either builds its own mesher or queries one shared by all callers.
#include "eqenv.h"
#include <cmath>
#include <iostream>
#include <array>
#include <algorithm>
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/AnnulusMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
#include "PrePost/Mesher/Delaunay.h"
namespace {
struct Where { double a, b, c; bool operator()(Vector<double> x) const { tick(); return a * x(0) + b * x(1) < c; } };
struct Plan { std::vector<int> order; std::vector<int> ulist; Where w; bool shared; };
Plan plan(Rng& g, int nquery) {
    Plan p; int n = g.range(1, nquery + 1); for (int i = 0; i < n; i++) p.order.push_back((int)g.below(nquery));
    int k = g.range(1, 3); for (int i = 0; i < k; i++) p.ulist.push_back(g.range(0, 5));
    double t = g.uniform(0, 6.28); p.w.a = std::cos(t); p.w.b = std::sin(t); p.w.c = g.uniform(-1, 2); p.shared = g.chance(0.5); return p;
}
template <class M> void common(M& m, int q, const Plan& p, Out& o) {
    o.i(q);
    if (q == 0) { std::vector<Vector<double> > r; { sim::Lib l; r = m.GenerateNodes(); } put(o, r); }
    else if (q == 1) { std::vector<std::vector<int> > r; { sim::Lib l; r = m.GenerateElements(); } put(o, r); }
    else { std::vector<std::pair<std::pair<int, int>, double> > r; { sim::Lib l; r = m.GenerateFixedlist(p.ulist, p.w); } put(o, r); }
}
template <class M> void edges(M& m, Out& o) { std::vector<std::vector<int> > r; { sim::Lib l; r = m.GenerateEdges(); } put(o, r); }
// mk: builds a mesher;  ask: runs query q on it
template <class M> Case mesh_case(Rng& g, int nquery, std::function<std::shared_ptr<M>()> mk, std::function<void(M&, int, const Plan&, Out&)> ask) {
    std::shared_ptr<Plan> p(new Plan(plan(g, nquery)));
    std::shared_ptr<M> sh; if (p->shared) sh = mk();
    Case c;
    c.run = [=](Out& o) { std::shared_ptr<M> m = sh; if (!m) m = mk(); for (int q : p->order) ask(*m, q, *p, o); };
    return c;
}
template <class M> std::shared_ptr<M> own(std::function<M*()> f) { M* m; { sim::Lib l; m = f(); } return std::shared_ptr<M>(m, [](M* x) { sim::Lib l; delete x; }); }

Case square(Rng& g) {
    typedef SquareMesh<double> M; double x = g.uniform(0.2, 10), y = g.uniform(0.2, 10); int nx = size_of(g, 1, 6, 25), ny = size_of(g, 1, 6, 25);
    return mesh_case<M>(g, 9, [=] { return own<M>([=] { return new M(x, y, nx, ny); }); }, [](M& m, int q, const Plan& p, Out& o) {
        if (q < 3) common(m, q, p, o); else if (q == 3) edges(m, o);
        else if (q == 4) { std::vector<Vector<double> > r; { sim::Lib l; r = m.GenerateNodes2(); } put(o, r); }
        else if (q == 5) { std::vector<std::vector<int> > r; { sim::Lib l; r = m.GenerateElements2(); } put(o, r); }
        else if (q == 6) { std::vector<std::vector<int> > r; { sim::Lib l; r = m.GenerateEdges2(); } put(o, r); }
        else if (q == 7) { std::vector<std::pair<std::pair<int, int>, double> > r; { sim::Lib l; r = m.GenerateFixedlist2(p.ulist, p.w); } put(o, r); }
        else { std::vector<int> r, s; { sim::Lib l; r = m.GenerateElementIdsSelected(p.w); s = m.GenerateEdgeIdsSelected(p.w); } put(o, r); put(o, s); } });
}
Case square2(Rng& g) {
    typedef SquareMesh2<double> M; double x = g.uniform(0.2, 10), y = g.uniform(0.2, 10), rx = g.uniform(0.5, 2), ry = g.uniform(0.5, 2); int nx = size_of(g, 1, 6, 25), ny = size_of(g, 1, 6, 25);
    return mesh_case<M>(g, 4, [=] { return own<M>([=] { return new M(x, y, nx, ny, rx, ry); }); }, [](M& m, int q, const Plan& p, Out& o) { if (q < 3) common(m, q, p, o); else edges(m, o); });
}
Case annulus(Rng& g) {
    typedef AnnulusMesh<double> M; double r0 = g.uniform(0.2, 2), r1 = r0 + g.uniform(0.2, 3); int nr = size_of(g, 1, 5, 20), nt = size_of(g, 3, 12, 40);
    return mesh_case<M>(g, 4, [=] { return own<M>([=] { return new M(r0, r1, nr, nt); }); }, [](M& m, int q, const Plan& p, Out& o) { if (q < 3) common(m, q, p, o); else edges(m, o); });
}
Case sqann(Rng& g) {
    typedef SquareAnnulusMesh<double> M; double c = g.uniform(0.2, 2), d = g.uniform(0.2, 2), a = c + g.uniform(0.2, 3), b = d + g.uniform(0.2, 3); int nx = size_of(g, 1, 5, 16), ny = size_of(g, 1, 5, 16), nt = size_of(g, 1, 4, 12);
    return mesh_case<M>(g, 4, [=] { return own<M>([=] { return new M(a, b, c, d, nx, ny, nt); }); }, [](M& m, int q, const Plan& p, Out& o) { if (q < 3) common(m, q, p, o); else edges(m, o); });
}
Case sqann2(Rng& g) {
    typedef SquareAnnulusMesh2<double> M; double a = g.uniform(0.2, 4), b = g.uniform(0.2, 4); int nv = size_of(g, 1, 3, 12), nw = size_of(g, 1, 3, 12), nx = nv + 2 * size_of(g, 1, 2, 6), ny = nw + 2 * size_of(g, 1, 2, 6);
    return mesh_case<M>(g, 4, [=] { return own<M>([=] { return new M(a, b, nx, ny, nv, nw); }); }, [](M& m, int q, const Plan& p, Out& o) { if (q < 3) common(m, q, p, o); else edges(m, o); });
}
Case sqcirc(Rng& g) {
    typedef SquareCircleAnnulusMesh<double> M; double r = g.uniform(0.2, 1), a = 3 * r + g.uniform(0, 2), b = 3 * r + g.uniform(0, 2), pw = g.uniform(0.5, 2); int nx = size_of(g, 1, 4, 14), ny = size_of(g, 1, 4, 14), nr = size_of(g, 1, 4, 14);
    return mesh_case<M>(g, 4, [=] { return own<M>([=] { return new M(a, b, r, pw, nx, ny, nr); }); }, [](M& m, int q, const Plan& p, Out& o) { if (q < 3) common(m, q, p, o); else edges(m, o); });
}
Case grand(Rng& g) {
    typedef GrandStructure2D<double> M; double x = g.uniform(0.5, 5), y = g.uniform(0.5, 5), lm = g.uniform(0.3, 3); int nx = size_of(g, 1, 4, 9), ny = size_of(g, 1, 4, 9);
    return mesh_case<M>(g, 3, [=] { return own<M>([=] { return new M(x, y, nx, ny, lm); }); }, [](M& m, int q, const Plan& p, Out& o) { common(m, q, p, o); });
}
Case delaunay(Rng& g) {     // rectangles, as in the samples (outer list reversed), and the unit square
    typedef Delaunay<double> M; double s = g.uniform(0.5, 3), size = s * g.uniform(0.45, 0.9), cx = g.uniform(-2, 2), cy = g.uniform(-2, 2), w = s * g.uniform(0.8, 1.2);
    if (g.chance(0.3)) { cx = cy = 0; w = s = 1; size = g.uniform(0.3, 0.9); }
    std::vector<Vector<double> > pts = {{cx, cy}, {cx + w, cy}, {cx + w, cy + s}, {cx, cy + s}};
    std::vector<std::vector<int> > ol{{3, 2, 1, 0}}, il;
    return mesh_case<M>(g, 4, [=] { return own<M>([=] { return new M(pts, ol, il, size); }); }, [](M& m, int q, const Plan& p, Out& o) { if (q < 3) common(m, q, p, o); else edges(m, o); });
}
AtStart st([] {
    reg("SquareMesh", "mesh", square, 6); reg("SquareMesh2", "mesh", square2, 3); reg("AnnulusMesh", "mesh", annulus, 3); reg("SquareAnnulusMesh", "mesh", sqann, 3);
    reg("SquareAnnulusMesh2", "mesh", sqann2, 3); reg("SquareCircleAnnulusMesh", "mesh", sqcirc, 3); reg("GrandStructure2D", "mesh", grand, 3); reg("Delaunay", "mesh", delaunay, 5);
});
}
