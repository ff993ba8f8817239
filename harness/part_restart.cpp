// Time-stepping analyses that can be continued from an exported file: glue for C18.
#include "pipes.h"
#include "restart.h"
#include "PrePost/Import/ImportFromVTK.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/ReactionDiffusion.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/NavierStokes.h"
#include "Optimize/Solver/OC.h"
namespace {
double hi(const Nodes& x, int d) { double m = -1e300; for (auto& v : x) m = std::max(m, const_cast<Vector<double>&>(v)(d)); return m; }
bool at(double a, double b) { return std::fabs(a - b) < 1e-4; }
Nodes rows_to(const Rows2& r) { Nodes n; for (auto& v : r) n.push_back(Vector<double>(v)); return n; }
Rows2 to_rows(Nodes& n) { Rows2 r; for (auto& v : n) { std::vector<double> w; for (int i = 0; i < v.SIZE(); i++) w.push_back(v(i)); r.push_back(w); } return r; }
void heat_step(const StepPar& a, State& s) {
    Nodes x = rows_to(s.x), T = rows_to(s.field[0].v); double R = hi(x, 0); Fix f; for (size_t i = 0; i < x.size(); i++) { if (at(x[i](0), 0)) f.push_back({{(int)i, 0}, 300 * a.r[0]}); else if (at(x[i](0), R)) f.push_back({{(int)i, 0}, 0.0}); }
    Els n2g(x.size(), std::vector<int>(1, 0)); SetDirichlet(T, n2g, f); int deg = Renumbering(n2g); double dt = 0.1 * a.r[1], th = 0.5; LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
    for (auto e : s.el) { N2E n; Matrix<double> Ke, Ce; HeatTransfer<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0}, x, a.r[2], 1.0); HeatCapacity<double, ShapeFunction4Square, Gauss4Square>(Ce, n, e, {0}, x, a.r[3], a.r[4], 1.0); Vector<double> Te = ElementVector(T, n, e); Matrix<double> Ae = Ce / dt + Ke * th; Vector<double> be = (Ce / dt - Ke * (1.0 - th)) * Te; Assembling(K, F, T, Ae, n2g, n, e); Assembling(F, be, n2g, n, e); }
    if (deg) { CSR<double> C(K); std::vector<double> r = ScalingCG(C, F, 300, 1e-9); Disassembling(T, r, n2g); } s.field[0].v = to_rows(T);
}
void react_step(const StepPar& a, State& s) {
    Nodes x = rows_to(s.x), u = rows_to(s.field[0].v); Els n2g(x.size(), std::vector<int>(1, 0)); int deg = Renumbering(n2g); double dt = 0.02, th = 0.5; LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
    for (auto& e : s.el) { N2E n; Matrix<double> Me, Ke; Vector<double> Fe; ReactionDiffusionLumpedMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, e, {0}, x); ReactionDiffusionStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0}, x, a.r[1]); ReactionDiffusionReaction<double, ShapeFunction4Square, Gauss4Square>(Fe, n, e, {0}, x, u, [&](double v, Vector<double>) { return v * (1.0 - v) * a.r[2]; }); Vector<double> ue = ElementVector(u, n, e); Matrix<double> Ae = Me / dt + Ke * th; Vector<double> be = (Me / dt - Ke * (1.0 - th)) * ue + Fe; Assembling(K, F, u, Ae, n2g, n, e); Assembling(F, be, n2g, n, e); }
    CSR<double> C(K); std::vector<double> r = CG(C, F, 300, 1e-9); Disassembling(u, r, n2g); s.field[0].v = to_rows(u);
}
void flow_step(const StepPar& a, State& s) {      // velocity (vector), pressure (scalar)
    Nodes x = rows_to(s.x), u = rows_to(s.field[0].v), p = rows_to(s.field[1].v), v(x.size(), Vector<double>(2)); double W = hi(x, 0), H = hi(x, 1), rho = 1, mu = 0.05, dt = 0.005; Fix f, pf; pf.push_back({{0, 0}, 0.0});
    for (size_t i = 0; i < x.size(); i++) { bool top = at(x[i](1), H); if (top || at(x[i](1), 0) || at(x[i](0), 0) || at(x[i](0), W)) { f.push_back({{(int)i, 0}, top ? a.r[0] : 0.0}); f.push_back({{(int)i, 1}, 0.0}); } }
    Els nv(x.size(), std::vector<int>(2, 0)), np(x.size(), std::vector<int>(1, 0)); SetDirichlet(v, nv, f); SetDirichlet(u, nv, f); int dv = Renumbering(nv); SetDirichlet(p, np, pf); int dp = Renumbering(np);
    auto lumped = [&](Nodes& w, auto rhs) { if (!dv) return; LILCSR<double> K(dv, dv); std::vector<double> F(dv, 0.0); for (auto& e : s.el) { N2E n; Matrix<double> Me; NavierStokesDecoupledLumpedMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, e, {0, 1}, x, rho); Assembling(K, F, w, Me, nv, n, e); Vector<double> Fe; rhs(Fe, Me, n, e); Assembling(F, Fe, nv, n, e); } CSR<double> C(K); std::vector<double> d = GetDiagonal(C), r = Scaling(d, F); Disassembling(w, r, nv); };
    lumped(v, [&](Vector<double>& Fe, Matrix<double>& Me, N2E& n, std::vector<int>& e) { NavierStokesAuxiliaryVelocity<double, ShapeFunction4Square, Gauss4Square>(Fe, n, e, {0, 1}, x, u, rho, mu); Fe = Me * ElementVector(u, n, e) + dt * Fe; });
    LILCSR<double> K(dp, dp); std::vector<double> F(dp, 0.0); for (auto& e : s.el) { N2E n; Matrix<double> Ke; Vector<double> Fe; NavierStokesPressurePoisson<double, ShapeFunction4Square, Gauss4Square>(Ke, Fe, n, e, {0}, x, v, rho, dt); Assembling(K, F, p, Ke, np, n, e); Assembling(F, Fe, np, n, e); } { CSR<double> C(K); std::vector<double> r = ScalingCG(C, F, 300, 1e-8); Disassembling(p, r, np); }
    lumped(u, [&](Vector<double>& Fe, Matrix<double>& Me, N2E& n, std::vector<int>& e) { NavierStokesNextstepVelocity<double, ShapeFunction4Square, Gauss4Square>(Fe, n, e, {0, 1}, x, v, p, rho); Fe = Me * ElementVector(v, n, e) + dt * Fe; });
    s.field[0].v = to_rows(u); s.field[1].v = to_rows(p);
}
void design_step(const StepPar& a, State& s) {    // displacement (vector), density (cell scalar)
    Nodes x = rows_to(s.x), u(x.size(), Vector<double>(2)); size_t ne = s.el.size(); std::vector<double> d; for (auto& r : s.field[1].v) d.push_back(r[0]); double W = hi(x, 0), p = 3; Fix f, q; for (size_t i = 0; i < x.size(); i++) { if (at(x[i](0), 0)) { f.push_back({{(int)i, 0}, 0.0}); f.push_back({{(int)i, 1}, 0.0}); } else if (at(x[i](0), W)) q.push_back({{(int)i, 1}, -a.r[0]}); }
    Els n2g(x.size(), std::vector<int>(2, 0)); SetDirichlet(u, n2g, f); int deg = Renumbering(n2g); LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0); for (size_t i = 0; i < ne; i++) { N2E n; Matrix<double> Ke; PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, s.el[i], {0, 1}, x, 100 * std::pow(d[i], p), 0.3, 1.0); Assembling(K, F, u, Ke, n2g, n, s.el[i]); } Assembling(F, q, n2g);
    CSR<double> C(K); std::vector<double> r = ScalingCG(C, F, 400, 1e-9); Disassembling(u, r, n2g); double fv = 0, g = -1; std::vector<double> df(ne), dg(ne, 1 / (0.5 * ne)); for (size_t i = 0; i < ne; i++) { N2E n; Matrix<double> Ke; PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, s.el[i], {0, 1}, x, 100.0, 0.3, 1.0); Vector<double> ue = ElementVector(u, n, s.el[i]); double c = ue * (Ke * ue); fv += c * std::pow(d[i], p); df[i] = -p * std::pow(d[i], p - 1) * c; g += d[i] / (0.5 * ne); }
    OC<double> h((int)ne, 0.5, 0.0, 1e4, 1e-3, 0.15, std::vector<double>(ne, 0.01), std::vector<double>(ne, 1.0)); h.UpdateVariables(d, fv, df, g, dg, [&](std::vector<double> y) { double t = -1; for (double v : y) t += v / (0.5 * ne); return t; }); s.field[0].v = to_rows(u); for (size_t i = 0; i < ne; i++) s.field[1].v[i][0] = d[i];
}
}
static State start(const StepPar& a) {
    State s; SquareMesh<double> m(a.r[5], a.r[6], a.nx, a.ny); Nodes x = m.GenerateNodes(); s.x = to_rows(x); s.el = m.GenerateElements(); size_t n = s.x.size(); auto f = [&](const char* nm, bool cell, bool vec, size_t k, double v) { SField q; q.name = nm; q.cell = cell; q.vec = vec; for (size_t i = 0; i < k; i++) q.v.push_back(std::vector<double>(vec ? 2 : 1, v)); s.field.push_back(q); };
    if (a.kind == 0) f("T", false, false, n, 20); else if (a.kind == 1) { f("u", false, false, n, 0); for (size_t i = 0; i < n; i++) s.field[0].v[i][0] = 0.5 + 0.4 * std::sin(3.0 * i + a.r[0]); } else if (a.kind == 2) { f("velocity", false, true, n, 0); f("p", false, false, n, 0); } else { f("u", false, true, n, 0); f("density", true, false, s.el.size(), 0.5); }
    return s;
}
State st_start(const StepPar& a) { sim::Lib l; return start(a); }
void st_step(const StepPar& a, State& s) { sim::Lib l; if (a.kind == 0) heat_step(a, s); else if (a.kind == 1) react_step(a, s); else if (a.kind == 2) flow_step(a, s); else design_step(a, s); }
bool st_write(const State& s, const std::string& path) {
    sim::Lib l; Nodes x = rows_to(s.x); std::ofstream f(path); if (!f.is_open()) return false; MakeHeadderToVTK(f); AddPointsToVTK(x, f); AddElementToVTK(s.el, f); AddElementTypes(std::vector<int>(s.el.size(), 9), f); int mode = 0;
    for (auto& q : s.field) { int w = q.cell ? 2 : 1; bool head = w != mode; mode = w; if (q.vec) AddPointVectors(rows_to(q.v), q.name, f, head); else { std::vector<double> v; for (auto& r : q.v) v.push_back(r[0]); if (q.cell) AddElementScalers(v, q.name, f, head); else AddPointScalers(v, q.name, f, head); } }
    bool g = f.good(); f.close(); return g && f.good();
}
State st_read(const State& shape, const std::string& path) {
    sim::Lib l; State s; ImportModelFromVTK<double> m(path, 2); Nodes x = m.ImportPOINTS(); s.x = to_rows(x); s.el = m.ImportCELLS();
    for (auto& q : shape.field) { SField r; r.name = q.name; r.cell = q.cell; r.vec = q.vec; if (q.vec) { Nodes v = q.cell ? m.ImportCELLVECTORS(q.name) : m.ImportPOINTVECTORS(q.name); r.v = to_rows(v); } else { std::vector<double> v = q.cell ? m.ImportCELLSCALARS(q.name) : m.ImportPOINTSCALARS(q.name); for (double d : v) r.v.push_back(std::vector<double>(1, d)); } s.field.push_back(r); }
    return s;
}
