// Analyses: topology and size optimisation, vibration, homogenisation, flow.
#include "pipes.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
#include "PrePost/Mesher/SquareAnnulusMesh.h"
#include "PrePost/Mesher/GrandStructure.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/Homogenization.h"
#include "FEM/Equation/Truss.h"
#include "FEM/Equation/Stokes.h"
#include "FEM/Equation/NavierStokes.h"
#include "Optimize/Solver/OC.h"
#include "Optimize/Solver/MMA.h"
#include "Optimize/Solver/CONLIN.h"
#include "Optimize/Filter/DensityFilter.h"
#include "Optimize/Filter/HeavisideFilter.h"
namespace {
template <class Filter, class Upd> void density_on(const Par& a, Trace& t, Filter& filter, SquareMesh<double>& mesh, Nodes& x, Els& el, Upd update, std::function<void(int)> before) {
    double W = a.nx, H = a.ny; Fix uf = mesh.GenerateFixedlist({0, 1}, [](Vector<double> y) { return near(y(0), 0); }), qf = mesh.GenerateFixedlist({1}, [=](Vector<double> y) { return near(y(0), W) && near(y(1), H); }); for (auto& q : qf) q.second = -1;
    size_t ne = el.size(); std::vector<double> s(ne, 0.5); double E0 = 0.01, E1 = 100, p = 3, lim = 0.5;
    for (int k = 0; k < a.steps; k++) {
        std::cout << "\nk = " << k << "\t"; before(k); std::vector<double> rho = filter.GetFilteredVariables(s); double g = -1; std::vector<double> dg(ne, 1 / (lim * ne)); for (double v : rho) g += v / (lim * ne);
        Nodes u(x.size(), Vector<double>(2)); Els n2g(x.size(), std::vector<int>(2, 0)); SetDirichlet(u, n2g, uf); int deg = Renumbering(n2g); LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
        for (size_t i = 0; i < ne; i++) { double E = E1 * std::pow(rho[i], p) + E0 * (1 - std::pow(rho[i], p)); N2E n; Matrix<double> Ke; PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, el[i], {0, 1}, x, E, 0.3, 1.0); Assembling(K, F, u, Ke, n2g, n, el[i]); }
        Assembling(F, qf, n2g); CSR<double> C(K); std::vector<double> r = ScalingCG(C, F, 500, 1e-9); Disassembling(u, r, n2g); double f = 0; std::vector<double> df(ne);
        for (size_t i = 0; i < ne; i++) { N2E n; Matrix<double> Ke; PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, el[i], {0, 1}, x, 1.0, 0.3, 1.0); Vector<double> ue = ElementVector(u, n, el[i]); double c = ue * (Ke * ue); f += (E1 * std::pow(rho[i], p) + E0) * c; df[i] = -p * (E1 - E0) * std::pow(rho[i], p - 1) * c; }
        std::vector<double> dfs = filter.GetFilteredSensitivitis(s, df), dgs = filter.GetFilteredSensitivitis(s, dg); std::cout << "Objective:\t" << f << "\tWeight:\t" << g << "\t";
        t.vec(u); t.vec(rho); t.write(x, el, 9, [&](std::ofstream& o) { AddPointVectors(u, "u", o, true); AddElementScalers(rho, "s", o, true); }); update(s, f, dfs, g, dgs, ne, lim); t.vec(s);
    }
}
void density(const Par& a, Trace& t) {
    SquareMesh<double> mesh(a.nx, a.ny, a.nx, a.ny); Nodes x = mesh.GenerateNodes(); Els el = mesh.GenerateElements(); size_t ne = el.size(); Nodes cg(ne); for (size_t i = 0; i < ne; i++) cg[i] = CenterOfGravity(x, el[i]); Els nb(ne); std::vector<std::vector<double> > w(ne); double R = 1.5; for (size_t i = 0; i < ne; i++) for (size_t j = 0; j < ne; j++) { double d = (cg[i] - cg[j]).Norm(); if (d <= R) { nb[i].push_back((int)j); w[i].push_back((R - d) / R); } }
    std::vector<double> lo(ne, 0.01), hi(ne, 1.0), one(1, 0.0); int n = (int)ne;
    if (a.pick % 3 == 0) { OC<double> h(n, 0.5, 0.0, 1e4, 1e-3, 0.15, lo, hi); DensityFilter<double> f(n, nb, w); density_on(a, t, f, mesh, x, el, [&](std::vector<double>& s, double fv, std::vector<double>& df, double gv, std::vector<double>& dg, size_t m, double lim) { if (h.IsConvergence(fv)) std::cout << "converged"; h.UpdateVariables(s, fv, df, gv, dg, [&](std::vector<double> y) { double g = -1; std::vector<double> r = f.GetFilteredVariables(y); for (double v : r) g += v / (lim * m); return g; }); }, [](int) {}); }
    else if (a.pick % 3 == 1) { MMA<double> h(n, 1, 1.0, one, std::vector<double>(1, 10000.0), one, lo, hi); h.SetParameters(1e-5, 0.1, 0.2, 0.5, 0.7, 1.2, 1e-6); HeavisideFilter<double> f(n, nb, w); double beta = 0.5; density_on(a, t, f, mesh, x, el, [&](std::vector<double>& s, double fv, std::vector<double>& df, double gv, std::vector<double>& dg, size_t, double) { if (h.IsConvergence(fv)) std::cout << "converged"; h.UpdateVariables(s, fv, df, {gv}, {dg}); }, [&](int k) { if (k % 2 == 0) f.UpdateBeta(beta *= 2); }); }
    else { CONLIN<double> h(n, 1, 1.0, one, std::vector<double>(1, 10000.0), one, lo, hi); h.SetParameters(0.2, 1e-6); DensityFilter<double> f(n, nb, w); density_on(a, t, f, mesh, x, el, [&](std::vector<double>& s, double fv, std::vector<double>& df, double gv, std::vector<double>& dg, size_t, double) { if (h.IsConvergence(fv)) std::cout << "converged"; h.UpdateVariables(s, fv, df, {gv}, {dg}); }, [](int) {}); }
}
void truss(const Par& a, Trace& t) {
    double W = 2 * a.r[0], H = a.r[1]; GrandStructure2D<double> m(W, H, std::min(a.nx, 2) + 1, std::min(a.ny, 2), 1.2 * std::max(W, H)); Nodes x = m.GenerateNodes(); Els el = m.GenerateElements(); size_t ne = el.size(); Fix uf = m.GenerateFixedlist({0, 1}, [](Vector<double> y) { return near(y(0), 0); }), qf = m.GenerateFixedlist({1}, [=](Vector<double> y) { return near(y(0), W); }); for (auto& q : qf) q.second = -5;
    std::vector<double> l(ne), s(ne, 0.5); double sum = 0, lim = 0.5; for (size_t i = 0; i < ne; i++) sum += l[i] = (x[el[i][1]] - x[el[i][0]]).Norm(); OC<double> h((int)ne, 0.5, 0.0, 1e3, 1e-3, 0.15, std::vector<double>(ne, 0.01), std::vector<double>(ne, 1.0));
    for (int k = 0; k < a.steps; k++) {
        double g = -1; std::vector<double> dg(ne), df(ne); for (size_t i = 0; i < ne; i++) { g += s[i] * l[i] / (lim * sum); dg[i] = l[i] / (lim * sum); } Nodes u(x.size(), Vector<double>(2)); Els n2g(x.size(), std::vector<int>(2, 0)); SetDirichlet(u, n2g, uf); int deg = Renumbering(n2g); LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
        for (size_t i = 0; i < ne; i++) { N2E n; Matrix<double> Ke; Truss2D<double>(Ke, n, el[i], {0, 1}, x, 1000.0, 0.01 + s[i]); Assembling(K, F, u, Ke, n2g, n, el[i]); } Assembling(F, qf, n2g); CSR<double> C(K); std::vector<double> r = spd(a.solver == 2 ? 0 : a.solver, C, F); Disassembling(u, r, n2g); double f = 0;
        for (size_t i = 0; i < ne; i++) { N2E n; Matrix<double> Ke; Truss2D<double>(Ke, n, el[i], {0, 1}, x, 1000.0, 1.0); Vector<double> ue = ElementVector(u, n, el[i]); double c = ue * (Ke * ue); f += c * s[i]; df[i] = -c; }
        t.vec(u); t.write(x, el, 3, [&](std::ofstream& o) { AddPointVectors(u, "u", o, true); AddElementScalers(s, "s", o, true); }); h.UpdateVariables(s, f, df, g, dg, [&](std::vector<double> y) { double q = -1; for (size_t i = 0; i < ne; i++) q += y[i] * l[i] / (lim * sum); return q; }); t.vec(s);
    }
}
void vibration(const Par& a, Trace& t) {
    Nodes x; Els el; Fix uf, qf; if (!model(a, t, x, el, uf, qf)) return; Els n2g(x.size(), std::vector<int>(2, 0)); SetDirichlet(n2g, uf); int deg = Renumbering(n2g); LILCSR<double> K(deg, deg), M(deg, deg);
    for (auto e : el) { N2E n; Matrix<double> Ke, Me; PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0, 1}, x, 210 * a.r[0], 0.1, 1.0); Assembling(K, Ke, n2g, n, e); PlaneStrainMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, e, {0, 1}, x, 0.78, 1.0); Assembling(M, Me, n2g, n, e); }
    CSR<double> Kc(K), Mc(M); std::vector<double> lam; std::vector<std::vector<double> > vec; int m = std::min(2, deg); GeneralShiftedInvertLanczos(Kc, Mc, lam, vec, m, -10.0);
    for (int i = 0; i < m; i++) { std::cout << lam[i] << "\t" << std::sqrt(lam[i]) << std::endl; Nodes u(x.size(), Vector<double>(2)); Disassembling(u, vec[i], n2g); t.vec(u); t.write(x, el, 9, [&](std::ofstream& f) { AddPointVectors(u, "u", f, true); }); } t.vec(lam);
}
void homogenize(const Par& a, Trace& t) {
    int nv = 1, nx = nv + 2 * (a.pick % 5 == 0 ? 2 : 1); SquareAnnulusMesh2<double> m(1.0, 1.0, nx, nx, nv, nv); Nodes x = m.GenerateNodes(); Els el = m.GenerateElements(); std::vector<std::pair<int, int> > per; auto find = [&](double p, double q) { for (size_t i = 0; i < x.size(); i++) if (near(x[i](0), p) && near(x[i](1), q)) return (int)i; return -1; };
    for (size_t i = 0; i < x.size(); i++) { int s = -1; if (near(x[i](0), 0)) s = find(1, x[i](1)); if (s >= 0) per.push_back({(int)i, s}); } for (size_t i = 0; i < x.size(); i++) if (near(x[i](1), 0) && !near(x[i](0), 1) && !near(x[i](0), 0)) { int s = find(x[i](0), 1); if (s >= 0) per.push_back({(int)i, s}); }
    Nodes chi[3]; for (auto& c : chi) c = Nodes(x.size(), Vector<double>(2)); Els n2g(x.size(), std::vector<int>(2, 0)); int deg = SetPeriodic(n2g, per); LILCSR<double> K(deg, deg); std::vector<double> F[3]; for (auto& f : F) f.assign(deg, 0.0); double E = 100 * a.r[0];
    for (auto e : el) { N2E n; Matrix<double> Ke, Fs; PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0, 1}, x, E, 0.3, 1.0); Assembling(K, Ke, n2g, n, e); HomogenizePlaneStrainBodyForce<double, ShapeFunction4Square, Gauss4Square>(Fs, n, e, {0, 1}, x, E, 0.3, 1.0); for (int k = 0; k < 3; k++) { Assembling(F[k], chi[k], Ke, n2g, n, e); Vector<double> Fe = Fs.Block(0, k, Ke.ROW(), 1); Assembling(F[k], Fe, n2g, n, e); } }
    for (auto e : el) { N2E n; Matrix<double> Ke; WeakSpring<double>(Ke, n, e, {0, 1}, x, 1e-3); Assembling(K, Ke, n2g, n, e); }
    CSR<double> C(K); for (int k = 0; k < 3; k++) { std::vector<double> r = ScalingCG(C, F[k], 300, 1e-8); Disassembling(chi[k], r, n2g); t.vec(chi[k]); }
    Matrix<double> CH(3, 3), I = Identity<double>(3); for (auto e : el) { CH += HomogenizePlaneStrainConstitutive<double, ShapeFunction4Square, Gauss4Square>(x, e, chi[0], chi[1], chi[2], E, 0.3, 1.0); I += HomogenizePlaneStrainCheck<double, ShapeFunction4Square, Gauss4Square>(x, e, chi[0], chi[1], chi[2], 1.0); }
    std::cout << I / 2.0 << std::endl << CH / 2.0 << std::endl; t.write(x, el, 9, [&](std::ofstream& f) { AddPointVectors(chi[0], "chi0", f, true); AddPointVectors(chi[1], "chi1", f, false); AddPointVectors(chi[2], "chi2", f, false); });
}
void cavity(const Par& a, Trace& t) {       // stabilised Navier-Stokes, transient
    SquareMesh<double> m(1, 1, std::min(a.nx, 3), std::min(a.ny, 3)); Nodes x = m.GenerateNodes(); Els el = m.GenerateElements(); Fix f0 = m.GenerateFixedlist({0, 1}, [](Vector<double> y) { return near(y(0), 0) || near(y(1), 0) || near(y(0), 1); }), f1 = m.GenerateFixedlist({0, 1}, [](Vector<double> y) { return near(y(1), 1); }); for (auto& f : f1) if (f.first.second == 0) f.second = a.r[0];
    Nodes up(x.size(), Vector<double>(3)), ub(x.size(), Vector<double>(2)); Els n2g(x.size(), std::vector<int>(3, 0)); SetDirichlet(up, n2g, f0); SetDirichlet(up, n2g, f1); int deg = Renumbering(n2g); double rho = 1, mu = 0.1, dt = 0.01, th = 0.5;
    for (int k = 0; k < a.steps; k++) {
        std::cout << "t=" << k << std::endl; LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
        for (auto e : el) {
            N2E n, q; Matrix<double> Ke, Me, Ce, Ks, Ms, Cs; NavierStokesStiffness<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(Ke, n, e, q, e, {0, 1, 2}, x, ub, rho, mu); NavierStokesConsistentMass<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(Me, n, e, q, e, {0, 1, 2}, x, rho); ContinuityStiffness<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(Ce, n, e, q, e, {0, 1, 2}, x);
            NavierStokesSUPGPSPGStiffness<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(Ks, n, e, q, e, {0, 1, 2}, x, ub, rho, mu, dt); NavierStokesSUPGPSPGConsistentMass<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(Ms, n, e, q, e, {0, 1, 2}, x, ub, rho, mu, dt); ContinuitySUPGPSPGStiffness<double, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square>(Cs, n, e, q, e, {0, 1, 2}, x, ub, rho, mu, dt);
            Matrix<double> Ae = (Me + Ms) / dt + th * (Ke + Ks) + (Ce + Cs); Vector<double> be = ((Me + Ms) / dt - (1.0 - th) * (Ke + Ks)) * ElementVector(up, {n, q}, {e, e}); Assembling(K, F, up, Ae, n2g, {n, q}, {e, e}); Assembling(F, be, n2g, n, e); Assembling(F, be, n2g, q, e);
        }
        CSR<double> C(K); std::vector<double> r = BiCGSTAB2(C, F, 120, 1e-8); Disassembling(up, r, n2g); Nodes u(x.size()); std::vector<double> p(x.size()); for (size_t i = 0; i < x.size(); i++) { u[i] = up[i].Segment(0, 2); p[i] = up[i](2); } ub = u; t.vec(up);
        t.write(x, el, 9, [&](std::ofstream& f) { AddPointVectors(u, "u", f, true); AddPointScalers(p, "p", f, false); });
    }
}
void decoupled(const Par& a, Trace& t) {
    SquareMesh<double> m(1, 1, a.nx, a.ny); Nodes x = m.GenerateNodes(); Els el = m.GenerateElements(); Fix f0 = m.GenerateFixedlist({0, 1}, [](Vector<double> y) { return near(y(0), 0) || near(y(1), 0) || near(y(0), 1); }), f1 = m.GenerateFixedlist({0, 1}, [](Vector<double> y) { return near(y(1), 1); }), pf = m.GenerateFixedlist({0}, [](Vector<double> y) { return near(y(0), 0) && near(y(1), 0); }); for (auto& f : f1) if (f.first.second == 0) f.second = a.r[0];
    double rho = 1, mu = 0.05, dt = 0.005; Nodes v(x.size(), Vector<double>(2)), u = v, p(x.size(), Vector<double>(1)); Els nv(x.size(), std::vector<int>(2, 0)), np(x.size(), std::vector<int>(1, 0)); SetDirichlet(v, nv, f0); SetDirichlet(u, nv, f0); SetDirichlet(v, nv, f1); SetDirichlet(u, nv, f1); int dv = Renumbering(nv); SetDirichlet(p, np, pf); int dp = Renumbering(np);
    for (int k = 0; k < a.steps; k++) {
        LILCSR<double> Kv(dv, dv); std::vector<double> Fv(dv, 0.0); for (auto& e : el) { N2E n; Matrix<double> Me; NavierStokesDecoupledLumpedMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, e, {0, 1}, x, rho); Assembling(Kv, Fv, v, Me, nv, n, e); Vector<double> Fe; NavierStokesAuxiliaryVelocity<double, ShapeFunction4Square, Gauss4Square>(Fe, n, e, {0, 1}, x, u, rho, mu); Fe = Me * ElementVector(u, n, e) + dt * Fe; Assembling(Fv, Fe, nv, n, e); }
        if (dv) { CSR<double> C(Kv); std::vector<double> d = GetDiagonal(C), r = Scaling(d, Fv); Disassembling(v, r, nv); }
        LILCSR<double> Kp(dp, dp); std::vector<double> Fp(dp, 0.0); for (auto& e : el) { N2E n; Matrix<double> Ke; Vector<double> Fe; NavierStokesPressurePoisson<double, ShapeFunction4Square, Gauss4Square>(Ke, Fe, n, e, {0}, x, v, rho, dt); Assembling(Kp, Fp, p, Ke, np, n, e); Assembling(Fp, Fe, np, n, e); } { CSR<double> C(Kp); std::vector<double> r = spd(a.solver, C, Fp); Disassembling(p, r, np); }
        LILCSR<double> Ku(dv, dv); std::vector<double> Fu(dv, 0.0); for (auto& e : el) { N2E n; Matrix<double> Me; NavierStokesDecoupledLumpedMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, e, {0, 1}, x, rho); Assembling(Ku, Fu, u, Me, nv, n, e); Vector<double> Fe; NavierStokesNextstepVelocity<double, ShapeFunction4Square, Gauss4Square>(Fe, n, e, {0, 1}, x, v, p, rho); Fe = Me * ElementVector(v, n, e) + dt * Fe; Assembling(Fu, Fe, nv, n, e); }
        if (dv) { CSR<double> C(Ku); std::vector<double> d = GetDiagonal(C), r = Scaling(d, Fu); Disassembling(u, r, nv); }
        t.vec(u); t.vec(p); t.write(x, el, 9, [&](std::ofstream& f) { AddPointVectors(u, "u", f, true); AddPointScalers(p, "p", f, false); AddPointVectors(v, "v", f, false); });
    }
}
PipeAt p1("density optimisation", density, false, 5), p2("truss sizing", truss, false, 3), p3("vibration", vibration, true, 2), p4("homogenisation", homogenize, false, 2), p5("cavity flow, stabilised", cavity, false, 2), p6("cavity flow, decoupled", decoupled, false, 3);
}
