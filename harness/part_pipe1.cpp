// Analyses: heat conduction, advection, reaction-diffusion, elasticity (2D, 3D, shell).
#include "pipes.h"
#include "PrePost/Mesher/Delaunay.h"
#include "FEM/Equation/HeatTransfer.h"
#include "FEM/Equation/Advection.h"
#include "FEM/Equation/ReactionDiffusion.h"
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/Solid.h"
#include "FEM/Equation/Shell.h"
namespace {
template <template <class> class SF, template <class> class IC, class M> void heat_on(const Par& a, Trace& t, M& mesher, double right, int type) {
    Nodes x = mesher.GenerateNodes(); Els el = mesher.GenerateElements();
    Fix u0 = mesher.GenerateFixedlist({0}, [](Vector<double> y) { return near(y(0), 0); }), u1 = mesher.GenerateFixedlist({0}, [=](Vector<double> y) { return near(y(0), right); }); for (auto& f : u0) f.second = 300 * a.r[0];
    Nodes T(x.size(), Vector<double>(1)); Els n2g(x.size(), std::vector<int>(1, 0)); SetDirichlet(T, n2g, u0); SetDirichlet(T, n2g, u1); int deg = Renumbering(n2g); double dt = 0.1 * a.r[1], theta = 0.5;
    for (int k = 0; k < a.steps; k++) {
        std::cout << "t = " << k << std::endl; LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
        for (auto e : el) {
            N2E n; Matrix<double> Ke, Ce; HeatTransfer<double, SF, IC>(Ke, n, e, {0}, x, a.r[2], 1.0); HeatCapacity<double, SF, IC>(Ce, n, e, {0}, x, a.r[3], a.r[4], 1.0);
            Vector<double> Te = ElementVector(T, n, e); Matrix<double> Ae = Ce / dt + Ke * theta; Vector<double> be = (Ce / dt - Ke * (1.0 - theta)) * Te; Assembling(K, F, T, Ae, n2g, n, e); Assembling(F, be, n2g, n, e);
        }
        CSR<double> C(K); std::vector<double> r = spd(a.solver, C, F); Disassembling(T, r, n2g); t.vec(T); t.write(x, el, type, [&](std::ofstream& f) { AddPointScalers(T, "T", f, true); });
    }
}
void heat(const Par& a, Trace& t) {
    if (a.pick % 4 == 0) { double s = a.r[5]; Delaunay<double> m({{0, 0}, {s, 0}, {s, s}, {0, s}}, {{3, 2, 1, 0}}, {}, 0.7 * s); heat_on<ShapeFunction3Triangle, Gauss1Triangle>(a, t, m, s, 5); }
    else { SquareMesh<double> m(a.r[5], a.r[6], a.nx, a.ny); heat_on<ShapeFunction4Square, Gauss4Square>(a, t, m, a.r[5], 9); }
}
void advection(const Par& a, Trace& t) {
    Nodes x; Els q, el; Fix u, nq; if (!model(a, t, x, q, u, nq)) return; for (auto& e : q) { el.push_back({e[0], e[1], e[2]}); el.push_back({e[0], e[2], e[3]}); } Fix u0; for (auto& f : u) if (f.first.second == 0) u0.push_back(f);
    Nodes T(x.size(), Vector<double>(1)); for (size_t i = 0; i < x.size(); i++) T[i](0) = 0.5 * (std::cos(x[i](0)) + 1); Els n2g(x.size(), std::vector<int>(1, 0)); SetDirichlet(T, n2g, u0); int deg = Renumbering(n2g); double dt = 0.05, theta = 0.5, kk = 0.1 * a.r[0];
    for (int k = 0; k < a.steps; k++) {
        std::cout << "t = " << k << std::endl; LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
        for (auto e : el) {
            Vector<double> ge = CenterOfGravity(x, e); double ax = -(ge(1) - 0.5), ay = ge(0) - 0.5; N2E n; Matrix<double> M, MS, A, D, AS; Mass<double, ShapeFunction3Triangle, Gauss1Triangle>(M, n, e, {0}, x); MassSUPG<double, ShapeFunction3Triangle, Gauss1Triangle>(MS, n, e, {0}, x, ax, ay, kk);
            Advection<double, ShapeFunction3Triangle, Gauss1Triangle>(A, n, e, {0}, x, ax, ay); Diffusion<double, ShapeFunction3Triangle, Gauss1Triangle>(D, n, e, {0}, x, kk); AdvectionSUPG<double, ShapeFunction3Triangle, Gauss1Triangle>(AS, n, e, {0}, x, ax, ay, kk);
            Vector<double> Te = ElementVector(T, n, e); Matrix<double> Ke = (M + MS) / dt + theta * (A + D + AS); Vector<double> Fe = ((M + MS) / dt - (1.0 - theta) * (A + D + AS)) * Te; Assembling(K, F, T, Ke, Fe, n2g, n, e);
        }
        CSR<double> C(K); std::vector<double> r; if (a.solver == 0) r = BiCGSTAB(C, F, 300, 1e-8); else if (a.solver == 1) r = ScalingBiCGSTAB(C, F, 300, 1e-8); else if (a.solver == 2) { CSR<double> P = ILU0(C); r = ILU0BiCGSTAB(C, P, F, 300, 1e-8); } else r = BiCGSTAB2(C, F, 300, 1e-8);
        Disassembling(T, r, n2g); t.vec(T); t.write(x, el, 5, [&](std::ofstream& f) { AddPointScalers(T, "T", f, true); });
    }
}
void reaction(const Par& a, Trace& t) {     // level-set like: nodal <-> elemental interpolation and a reaction term given by a callback
    SquareMesh<double> m(a.r[5], a.r[6], a.nx, a.ny); Nodes x = m.GenerateNodes(); Els el = m.GenerateElements(); Nodes u(x.size(), Vector<double>(1)); for (size_t i = 0; i < u.size(); i++) u[i](0) = 0.5 + 0.4 * std::sin(3.0 * i + a.r[0]); Els n2g(x.size(), std::vector<int>(1, 0)); int deg = Renumbering(n2g); double dt = 0.01, theta = 0.5;
    for (int k = 0; k < a.steps; k++) {
        LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
        for (size_t i = 0; i < el.size(); i++) {
            N2E n; Matrix<double> Me, Ke; Vector<double> Fe; if (a.pick % 2) ReactionDiffusionConsistentMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, el[i], {0}, x); else ReactionDiffusionLumpedMass<double, ShapeFunction4Square, Gauss4Square>(Me, n, el[i], {0}, x);
            ReactionDiffusionStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, el[i], {0}, x, a.r[1]); ReactionDiffusionReaction<double, ShapeFunction4Square, Gauss4Square>(Fe, n, el[i], {0}, x, u, [&](double v, Vector<double>) { return v * (1.0 - v) * a.r[2]; });
            Vector<double> ue = ElementVector(u, n, el[i]); Matrix<double> Ae = Me / dt + Ke * theta; Vector<double> be = (Me / dt - Ke * (1.0 - theta)) * ue + Fe; Assembling(K, F, u, Ae, n2g, n, el[i]); Assembling(F, be, n2g, n, el[i]);
        }
        CSR<double> C(K); std::vector<double> r = spd(a.solver, C, F); Disassembling(u, r, n2g);
        Nodes ue = InterpolateElementalFromNodal<double, Vector>(Vector<double>(1), u, el), un = InterpolateNodalFromElemental<double, Vector>((int)x.size(), Vector<double>(1), ue, el); t.vec(u); t.vec(un); std::vector<double> es; for (auto& v : ue) es.push_back(v(0));
        t.write(x, el, 9, [&](std::ofstream& f) { AddPointScalers(u, "u", f, true); AddPointScalers(un, "un", f, false); AddElementScalers(es, "str", f, true); });
    }
}
void plane(const Par& a, Trace& t) {
    Nodes x; Els el; Fix uf, qf; if (!model(a, t, x, el, uf, qf)) return; Nodes u(x.size(), Vector<double>(2)); Els n2g(x.size(), std::vector<int>(2, 0)); SetDirichlet(u, n2g, uf); int deg = Renumbering(n2g); LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0);
    auto stiff = [&](Matrix<double>& Ke, N2E& n, std::vector<int>& e) { if (a.pick % 3 == 0) PlaneStressStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0, 1}, x, 100 * a.r[0], 0.3, 1.0); else if (a.pick % 3 == 1) PlaneStrainStiffness<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0, 1}, x, 100 * a.r[0], 0.3, 1.0); else PlaneStrainStiffnessWilsonTaylor<double, ShapeFunction4Square, Gauss4Square>(Ke, n, e, {0, 1}, x, 100 * a.r[0], 0.3, 1.0); };
    for (auto e : el) { N2E n; Matrix<double> Ke; stiff(Ke, n, e); Assembling(K, F, u, Ke, n2g, n, e); Vector<double> Fe; PlaneStrainBodyForce<double, ShapeFunction4Square, Gauss4Square>(Fe, n, e, {0, 1}, x, [&](Vector<double> y) { Vector<double> f = {0.1 * y(1), -a.r[1]}; return f; }, 1.0); Assembling(F, Fe, n2g, n, e); }
    Assembling(F, qf, n2g); CSR<double> C(K); std::vector<double> r = spd(a.solver, C, F); Disassembling(u, r, n2g);
    RemoveBoundaryConditions(n2g); deg = Renumbering(n2g); std::vector<double> RF(deg, 0.0); Nodes R(x.size(), Vector<double>(2)); for (auto e : el) { N2E n; Matrix<double> Ke; stiff(Ke, n, e); Vector<double> v = Ke * ElementVector(u, n, e); Assembling(RF, v, n2g, n, e); } Disassembling(R, RF, n2g);
    t.vec(u); t.vec(R); t.write(x, el, 9, [&](std::ofstream& f) { AddPointVectors(u, "u", f, true); AddPointVectors(R, "r", f, false); });
}
void solid(const Par& a, Trace& t) {
    Nodes x; Els el; Fix uf, qf; if (!model(a, t, x, el, uf, qf)) return; Nodes u(x.size(), Vector<double>(3)); Els n2g(x.size(), std::vector<int>(3, 0)); SetDirichlet(u, n2g, uf); int deg = Renumbering(n2g);
    for (int inc = 1; inc <= a.steps; inc++) {
        std::cout << "finc = " << inc << "\t";
        for (int k = 0; k < 2; k++) {
            LILCSR<double> K(deg, deg); std::vector<double> R(deg, 0.0);
            for (auto e : el) { N2E n; Matrix<double> Ke; Vector<double> Qe; if (a.pick % 2) SolidTotalLagrange<double, ShapeFunction8Cubic, Gauss8Cubic>(Ke, Qe, n, e, {0, 1, 2}, x, u, 1000.0, 0.3); else SolidUpdatedLagrange<double, ShapeFunction8Cubic, Gauss8Cubic>(Ke, Qe, n, e, {0, 1, 2}, x, u, 1000.0, 0.3); Assembling(K, R, u, Ke, Qe, n2g, n, e); }
            Fix q = qf; for (auto& f : q) f.second *= 0.1 * inc; Assembling(R, q, n2g); double nr = std::inner_product(R.begin(), R.end(), R.begin(), 0.0); std::cout << "k = " << k << "\tNorm = " << nr << std::endl; if (nr < 1e-18) break;
            CSR<double> C(K); std::vector<double> r = ScalingCG(C, R, 600, 1e-10); Nodes du(x.size(), Vector<double>(3)); Disassembling(du, r, n2g); for (size_t i = 0; i < x.size(); i++) u[i] += du[i];
        }
        t.vec(u); t.write(x, el, 12, [&](std::ofstream& f) { AddPointVectors(u, "u", f, true); });
    }
}
void shell(const Par& a, Trace& t) {
    SquareMesh<double> m(15 * a.r[0], 5 * a.r[1], std::min(a.nx, 3), std::min(a.ny, 2)); double L = 15 * a.r[0]; Nodes x = m.GenerateNodes(); for (auto& v : x) v = {v(0), v(1), 0.0}; Els el = m.GenerateElements();
    Fix uf = m.GenerateFixedlist({0, 1, 2, 3, 4, 5}, [](Vector<double> y) { return near(y(0), 0); }), qf = m.GenerateFixedlist({2}, [=](Vector<double> y) { return near(y(0), L); }); for (auto& q : qf) q.second = -10 * a.r[2]; Nodes ur(x.size(), Vector<double>(6)); Els n2g(x.size(), std::vector<int>(6, 0)); SetDirichlet(ur, n2g, uf); int deg = Renumbering(n2g);
    LILCSR<double> K(deg, deg); std::vector<double> F(deg, 0.0); for (auto e : el) { N2E n; Matrix<double> Ke; ShellLinearIsotropicElastic2<double, ShapeFunction4Square, Gauss1Square, Gauss2Line>(Ke, n, e, {0, 1, 2, 3, 4, 5}, x, 210000.0, 0.3, 1.0); Assembling(K, F, ur, Ke, n2g, n, e); }
    Assembling(F, qf, n2g); CSR<double> C(K); std::vector<double> r = a.solver == 0 ? CG(C, F, 150, 1e-8) : ScalingCG(C, F, 150, 1e-8); Disassembling(ur, r, n2g); Nodes u(x.size()), th(x.size()); for (size_t i = 0; i < x.size(); i++) { u[i] = ur[i].Segment(0, 3); th[i] = 180.0 * ur[i].Segment(3, 6) / M_PI; }
    t.vec(u); t.vec(th); t.write(x, el, 9, [&](std::ofstream& f) { AddPointVectors(u, "u", f, true); AddPointVectors(th, "theta", f, false); });
}
PipeAt p1("heat, transient", heat, false, 4), p2("advection-diffusion, SUPG", advection, true, 3), p3("reaction-diffusion", reaction, false, 3), p4("plane elasticity with reactions", plane, true, 4), p5("solid, finite deformation", solid, true, 2), p6("shell", shell, false, 2);
}
