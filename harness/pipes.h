// Whole analyses in miniature: the sample programs' pipelines (mesh or CSV -> boundary conditions -> assembly -> solver ->
// write-back -> time stepping, Newton iterations or optimisation -> VTK files), small enough to be simulated many times.
#pragma once
#include "eqenv.h"
#include <iostream>
#include <fstream>
#include <algorithm>
#include <numeric>
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
#include "FEM/Equation/General.h"
#include "PrePost/Import/ImportFromCSV.h"
#include "PrePost/Export/ExportToVTK.h"
#include "PrePost/Mesher/SquareMesh.h"
typedef std::vector<Vector<double> > Nodes; typedef std::vector<std::vector<int> > Els; typedef std::vector<std::pair<std::pair<int, int>, double> > Fix;
struct Par { int nx, ny, steps, solver, pick; double r[8]; std::string in; };      // in: prefix of the model's CSV files (empty: the mesh is generated)
// what one execution of an analysis shows: printed text, fields, files. base: where its files go.
struct Trace {
    Out& o; std::string base; struct F { std::string path; bool opened, good; }; std::vector<F> files; bool refused; int resume; Trace(Out& q, const std::string& b) : o(q), base(b), refused(false), resume(-1) {}
    void val(double x) { sim::NoLib n; o.d(x); }
    template <class V> void vec(const V& v) { sim::NoLib n; put(o, v); }
    // the analysis stops because an input could not be read completely
    bool need(bool ok) { if (!ok) refused = true; return ok; }
    template <class W> void write(const Nodes& x_, const Els& e_, int type, W w) {
        std::string p; { sim::NoLib n; p = base + "." + ll(files.size()) + ".vtk"; files.push_back({p, false, false}); } F f = {p, false, false};
        Nodes x = x_; Els e = e_; std::ofstream fout(p); f.opened = fout.is_open();
        MakeHeadderToVTK(fout); AddPointsToVTK(x, fout); AddElementToVTK(e, fout); AddElementTypes(std::vector<int>(e.size(), type), fout); w(fout); bool g = fout.good(); fout.close(); f.good = g && fout.good(); sim::NoLib n; files.back() = f;
    }
};
typedef void (*PipeFn)(const Par&, Trace&);
struct Pipe { const char* name; PipeFn fn; bool csv; int weight; };
inline std::vector<Pipe>& pipes() { static std::vector<Pipe> p; return p; }
struct PipeAt { PipeAt(const char* n, PipeFn f, bool csv, int w = 3) { pipes().push_back({n, f, csv, w}); } };
inline std::string& pipe_left() { static std::string s; return s; }
// one analysis as a catalogue case; out is filled with everything the analysis shows
inline Par gen_par(Rng& g, const Pipe& p) {
    Par a; bool huge = big(g); int top = huge ? 8 : g.chance(0.25) ? 3 : 2; a.nx = g.range(1, top); a.ny = g.range(1, huge ? 5 : top); a.steps = g.range(1, 3); if (std::string(p.name).find("solid") == 0) { a.nx = g.range(1, 2); a.ny = 1; a.steps = g.chance(0.3) ? 2 : 1; } a.solver = g.range(0, 5); a.pick = g.range(0, 99); for (double& r : a.r) r = g.uniform(0.2, 2);
    if (p.csv) {
        static int uniq = 0; a.in = "/sim/model" + ll(uniq++); double w = g.uniform(0.5, 4), h = g.uniform(0.5, 4); int n1 = a.nx + 1, n2 = a.ny + 1; bool crlf = g.chance(0.1); std::string nl = crlf ? "\r\n" : "\n"; char b[160];
        auto node = [&](int i, int j, int k) { return (k * n2 + j) * n1 + i; }; bool solid = p.csv && std::string(p.name).find("solid") == 0; int nz = solid ? 2 : 1;
        std::string s = "ID,x0,x1,x2" + nl; for (int k = 0; k < nz; k++) for (int j = 0; j < n2; j++) for (int i = 0; i < n1; i++) { if (solid) snprintf(b, sizeof b, "%d,%.17g,%.17g,%.17g", node(i, j, k), w * i / a.nx, h * j / a.ny, (double)k); else snprintf(b, sizeof b, "%d,%.17g,%.17g", node(i, j, k), w * i / a.nx, h * j / a.ny); s += b + nl; }
        sim::disk_put(a.in + ".node.csv", s); s = "ID,n0,n1,n2,n3" + nl; int e = 0;
        for (int j = 0; j < a.ny; j++) for (int i = 0; i < a.nx; i++, e++) { if (solid) snprintf(b, sizeof b, "%d,%d,%d,%d,%d,%d,%d,%d,%d", e, node(i, j, 0), node(i + 1, j, 0), node(i + 1, j + 1, 0), node(i, j + 1, 0), node(i, j, 1), node(i + 1, j, 1), node(i + 1, j + 1, 1), node(i, j + 1, 1)); else snprintf(b, sizeof b, "%d,%d,%d,%d,%d", e, node(i, j, 0), node(i + 1, j, 0), node(i + 1, j + 1, 0), node(i, j + 1, 0)); s += b + nl; }
        sim::disk_put(a.in + ".element.csv", s); s = "ID,u0,u1,u2" + nl; std::string q = "ID,q0,q1,q2" + nl;
        for (int k = 0; k < nz; k++) for (int j = 0; j < n2; j++) { snprintf(b, sizeof b, "%d,0,0%s", node(0, j, k), solid ? ",0" : ""); s += b + nl; snprintf(b, sizeof b, "%d,free,%.17g%s", node(a.nx, j, k), g.uniform(-1, 1), solid ? ",free" : ""); q += b + nl; }
        sim::disk_put(a.in + ".dirichlet.csv", s); sim::disk_put(a.in + ".neumann.csv", q);
    }
    return a;
}
inline void par_digest(const Par& a, Out& o) { if (!a.in.empty()) for (const char* f : {".node.csv", ".element.csv", ".dirichlet.csv", ".neumann.csv"}) put(o, sim::disk_get(a.in + f)); }
// runs the analysis; everything it shows goes into o. Exceptions pass through (o then holds what was seen so far).
inline void run_pipe(const Pipe& p, const Par& a, Trace& t) {
    sim::cout_clear(sim::self());
    { sim::Lib l; p.fn(a, t); }
    t.o.b(t.refused); for (auto& f : t.files) { t.o.b(f.opened); t.o.b(f.good); put(t.o, sim::disk_get(f.path)); } put(t.o, sim::cout_text(sim::self()));
}
inline bool model(const Par& a, Trace& t, Nodes& x, Els& e, Fix& u, Fix& q) {
    return t.need(ImportNodesFromCSV(x, a.in + ".node.csv")) && t.need(ImportElementsFromCSV(e, a.in + ".element.csv")) && t.need(ImportDirichletFromCSV(u, a.in + ".dirichlet.csv")) && t.need(ImportNeumannFromCSV(q, a.in + ".neumann.csv"));
}
inline bool near(double a, double b) { return std::fabs(a - b) < 1e-5; }
// one of the symmetric solvers
inline std::vector<double> spd(int k, CSR<double>& K, std::vector<double>& F, int itr = 400, double eps = 1e-8) {
    if (k == 0) return CG(K, F, itr, eps);
    if (k == 1) { CSR<double> M = ILU0(K); return ILU0CG(K, M, F, itr, eps); }
    if (k == 2) return BiCGSTAB2(K, F, itr, eps);
    return ScalingCG(K, F, itr, eps);
}
