// Glue for C20: optimisers, filters, meshers and imported models as copyable objects.
#include "optenv.h"
#include "copyenv.h"
#include "eqenv.h"
#include <type_traits>
#include <array>
#include "PrePost/Mesher/SquareMesh.h"
#include "PrePost/Mesher/AnnulusMesh.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/SquareCircleAnnulusMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
#include "PrePost/Mesher/Delaunay.h"
namespace {
template <class X> typename std::enable_if<std::is_copy_assignable<X>::value, bool>::type give(X& a, const X& b) { a = b; return true; }
template <class X> typename std::enable_if<!std::is_copy_assignable<X>::value, bool>::type give(X&, const X&) { return false; }
// U: what the user keeps (design variables, plan of queries); use(X&, U&, choice, Out&)
template <class X, class U> struct Of : Obj {
    typedef void (*Use)(X&, U&, int, Out&); X* x; U u; Use use;
    Of(X* x_, const U& u_, Use f) : x(x_), u(u_), use(f) {} ~Of() { sim::Lib l; delete x; }
    Obj* copy() const { X* y; { sim::Lib l; y = new X(*x); } return new Of(y, u, use); }
    Obj* moved() { X* y; { sim::Lib l; y = new X(std::move(*x)); } return new Of(y, u, use); }
    bool assign(const Obj& b) { const Of& s = static_cast<const Of&>(b); bool r; { sim::Lib l; r = give(*x, *s.x); } if (r) u = s.u; return r; }
    void act(int c, Out& o) { use(*x, u, c, o); }
};
template <class X, class U> ObjKind kind(const char* name, std::function<X*()> mk, U u, typename Of<X, U>::Use use) { return {name, [=]() -> Obj* { X* x; { sim::Lib l; x = mk(); } return new Of<X, U>(x, u, use); }}; }
// ------------------------------------------------------------------ optimisers: choice 0-3 steps from a design pulled towards one of four others, 4 questions, 5-6 other parameters
struct Des { std::shared_ptr<Prob> p; std::vector<double> x; };
void pull(Des& d, int c) { for (size_t i = 0; i < d.x.size(); i++) { double m = 0.5 * (d.p->xmin[i] + d.p->xmax[i]); d.x[i] += 0.06 * c * (m - d.x[i]); } }
void use_oc(OC<double>& h, Des& d, int c, Out& o) { if (c == 4) { ask(h, d.p->f(d.x), o); return; } pull(d, c % 4); Prob* q = d.p.get(); double f = q->f(d.x), gv = q->gk(0, d.x); std::vector<double> df = q->df(d.x), dg = q->dg(0); sim::cout_clear(sim::self()); { sim::Lib l; h.UpdateVariables(d.x, f, df, gv, dg, [q](std::vector<double> y) { return q->gk(0, y); }); } put(o, d.x); put(o, sim::cout_text(sim::self())); }
template <class H> void use_mm(H& h, Des& d, int c, Out& o) { Prob* q = d.p.get(); double f = q->f(d.x); if (c == 4) { ask(h, f, o); return; } pull(d, c % 4); f = q->f(d.x); std::vector<double> df = q->df(d.x), gv; std::vector<std::vector<double> > e; for (int k = 0; k < q->m; k++) { gv.push_back(q->gk(k, d.x)); e.push_back(q->dg(k)); } { sim::Lib l; h.UpdateVariables(d.x, f, df, gv, e); } put(o, d.x); }
void use_mma(MMA<double>& h, Des& d, int c, Out& o) { if (c >= 5) { sim::Lib l; if (c == 5) h.SetParameters(1e-5, 0.2, 0.3, 0.4, 0.6, 1.1, 1e-3); else h.SetParameters(2e-5, 0.1, 0.4, 0.5, 0.7, 1.3, 1e-4); return; } use_mm(h, d, c, o); }
void use_con(CONLIN<double>& h, Des& d, int c, Out& o) { if (c >= 5) { sim::Lib l; h.SetParameters(c == 5 ? 0.2 : 0.35, c == 5 ? 1e-3 : 1e-4); return; } use_mm(h, d, c, o); }
ObjKind k_oc(Rng& g) { auto p = std::make_shared<Prob>(gen_prob(g, 1)); Des d = {p, p->x0}; return kind<OC<double>, Des>("OC", [=] { return new OC<double>(p->n, 0.5, p->lmin, p->lmax, p->leps, p->move, p->xmin, p->xmax); }, d, use_oc); }
ObjKind k_mma(Rng& g) { auto p = std::make_shared<Prob>(gen_prob(g, 3)); Des d = {p, p->x0}; return kind<MMA<double>, Des>("MMA", [=] { return new MMA<double>(p->n, p->m, 1.0, std::vector<double>(p->m, 0.0), std::vector<double>(p->m, 10000.0), std::vector<double>(p->m, 0.0), p->xmin, p->xmax); }, d, use_mma); }
ObjKind k_con(Rng& g) { auto p = std::make_shared<Prob>(gen_prob(g, 2)); Des d = {p, p->x0}; return kind<CONLIN<double>, Des>("CONLIN", [=] { return new CONLIN<double>(p->n, p->m, 1.0, std::vector<double>(p->m, 0.0), std::vector<double>(p->m, 10000.0), std::vector<double>(p->m, 0.0), p->xmin, p->xmax); }, d, use_con); }
// ------------------------------------------------------------------ filters
typedef std::shared_ptr<FilterIn> Fin;
void beta(HeavisideFilter<double>& f, int c) { sim::Lib l; f.UpdateBeta(0.5 + 2 * c); }
template <class F> void beta(F&, int) {}
template <class F> void use_filter(F& f, Fin& in, int c, Out& o) { if (c >= 4) { beta(f, c); return; } std::vector<double> r; if (c % 2) filt_vars(f, *in, r, o, 0); else { { sim::Lib l; r = f.GetFilteredSensitivitis(in->s, in->df); } put(o, r); } }
template <class F> ObjKind k_filter(Rng& g, const char* name) { Fin in(new FilterIn(gen_filter(g))); return kind<F, Fin>(name, [=] { return new F(in->n, in->nb, in->w); }, in, use_filter<F>); }
// ------------------------------------------------------------------ meshers
struct Half { double a, b, c; bool operator()(Vector<double> x) const { return a * x(0) + b * x(1) < c; } };
template <class M> auto edges(M& m, Out& o, int) -> decltype(m.GenerateEdges(), void()) { std::vector<std::vector<int> > r; { sim::Lib l; r = m.GenerateEdges(); } put(o, r); }
template <class M> void edges(M&, Out&, long) {}
template <class M> void use_mesh(M& m, int&, int c, Out& o) {
    if (c == 0 || c == 4) { std::vector<Vector<double> > r; { sim::Lib l; r = m.GenerateNodes(); } put(o, r); } else if (c == 1 || c == 5) { std::vector<std::vector<int> > r; { sim::Lib l; r = m.GenerateElements(); } put(o, r); }
    else if (c == 2) { std::vector<std::pair<std::pair<int, int>, double> > r; Half w = {0.3, 0.7, 1.1}; { sim::Lib l; r = m.GenerateFixedlist({0, 1}, w); } put(o, r); } else edges(m, o, 0);
}
template <class M, class... A> ObjKind k_mesh(const char* name, A... a) { return kind<M, int>(name, [=] { return new M(a...); }, 0, use_mesh<M>); }
ObjKind k_mesh_any(Rng& g) {
    double a = g.uniform(0.3, 2), b = g.uniform(0.3, 2), r = g.uniform(0.3, 1); int n = g.range(1, 4), m = g.range(1, 4);
    switch ((int)g.below(9)) {
        case 0: return k_mesh<SquareMesh<double> >("SquareMesh", a, b, n, m);
        case 1: return k_mesh<SquareMesh2<double> >("SquareMesh2", a, b, n, m, 1.2, 0.8);
        case 2: return k_mesh<AnnulusMesh<double> >("AnnulusMesh", r, r + a, n, m + 3);
        case 3: return k_mesh<SquareAnnulusMesh<double> >("SquareAnnulusMesh", a + r, b + r, a, b, n, m, 2);
        case 4: return k_mesh<SquareAnnulusMesh2<double> >("SquareAnnulusMesh2", a, b, n + 2, m + 2, n, m);
        case 5: return k_mesh<SquareCircleAnnulusMesh<double> >("SquareCircleAnnulusMesh", 3 * r + a, 3 * r + b, r, 1.1, n, m, 2);
        case 6: return k_mesh<GrandStructure2D<double> >("GrandStructure2D", a, b, n, m, a);
        default: { std::vector<Vector<double> > p = {{0.0, 0.0}, {a, 0.0}, {a, a}, {0.0, a}}; std::vector<std::vector<int> > ol{{3, 2, 1, 0}}, il; double s = a * g.uniform(0.5, 0.9); return k_mesh<Delaunay<double> >("Delaunay", p, ol, il, s); }
    }
}
}
ObjKind gen_obj(Rng& g) {
    switch ((int)g.below(12)) {
        case 0: case 1: return k_oc(g); case 2: case 3: case 4: return k_mma(g); case 5: case 6: return k_con(g);
        case 7: return k_filter<DensityFilter<double> >(g, "DensityFilter"); case 8: return k_filter<HeavisideFilter<double> >(g, "HeavisideFilter"); case 9: return g.chance(0.5) ? k_filter<SensitivityFilter<double> >(g, "SensitivityFilter") : k_filter<SensitivityFilter2<double> >(g, "SensitivityFilter2");
        default: return k_mesh_any(g);
    }
}
