// Catalogue: file import and export (group io); glue to the CSV importers, the VTK exporter and ImportFromVTK.h.
#include <algorithm>
#include "ioenv.h"
#include <iostream>
#include "PrePost/Import/ImportFromCSV.h"
#include "PrePost/Export/ExportToVTK.h"
#include "PrePost/Import/ImportFromVTK.h"
using namespace PANSFEM2;
static std::vector<double> vals(Vector<double>& v) { std::vector<double> r; for (int i = 0; i < v.SIZE(); i++) r.push_back(v(i)); return r; }
int import_csv(int kind, const std::string& path, const Rows& pre, Rows& out) {
    std::vector<Vector<double> > nodes; std::vector<std::vector<int> > el; std::vector<std::pair<std::pair<int, int>, double> > fix; std::vector<std::pair<int, int> > per;
    if (kind == CSV_NODES || kind == CSV_INITIAL) for (auto& r : pre) nodes.push_back(Vector<double>(r));
    else if (kind == CSV_ELEMENTS) for (auto& r : pre) el.push_back(std::vector<int>(r.begin(), r.end()));
    else if (kind == CSV_PERIODIC) for (auto& r : pre) per.push_back({(int)r[0], (int)r[1]});
    else for (auto& r : pre) fix.push_back({{(int)r[0], (int)r[1]}, r[2]});
    auto collect = [&] { sim::NoLib nl; out.clear(); for (auto& v : nodes) out.push_back(vals(v)); for (auto& e : el) out.push_back(std::vector<double>(e.begin(), e.end())); for (auto& f : fix) out.push_back({(double)f.first.first, (double)f.first.second, f.second}); for (auto& p : per) out.push_back({(double)p.first, (double)p.second}); };
    bool r = false;
    try {
        sim::Lib l;
        switch (kind) {
            case CSV_NODES: r = ImportNodesFromCSV(nodes, path); break;
            case CSV_ELEMENTS: r = ImportElementsFromCSV(el, path); break;
            case CSV_DIRICHLET: r = ImportDirichletFromCSV(fix, path); break;
            case CSV_NEUMANN: r = ImportNeumannFromCSV(fix, path); break;
            case CSV_INITIAL: r = ImportInitialFromCSV(nodes, path); break;
            default: r = ImportPeriodicFromCSV(per, path); break;
        }
    } catch (...) { collect(); throw; }
    collect(); return r;
}
void export_vtk(const Vtk& m, const std::string& path, int style, ExportState& st) {
    std::vector<Vector<double> > nodes; for (auto& r : m.nodes) nodes.push_back(Vector<double>(r));
    st.opened = st.good = false; st.after.clear();
    auto snap = [&] { sim::NoLib nl; if (style & 2) st.after.push_back(sim::disk_get(path)); };
    sim::Lib l; std::ofstream f(path); st.opened = f.is_open(); if (!st.opened) return;
    MakeHeadderToVTK(f); snap(); AddPointsToVTK(nodes, f); snap(); AddElementToVTK(m.cells, f); snap(); AddElementTypes(m.types, f); snap();
    int mode = 0;
    for (auto& q : m.fields) {
        int w = q.cell ? 2 : 1; bool head = w != mode; mode = w;
        std::vector<double> s; std::vector<Vector<double> > v; { sim::NoLib nl; for (auto& r : q.v) { s.push_back(r[0]); v.push_back(Vector<double>(r)); } }
        if (q.cell) AddElementScalers(s, q.name, f, head); else if (q.vec) AddPointVectors(v, q.name, f, head); else if (style & 1) AddPointScalers(v, q.name, f, head); else AddPointScalers(s, q.name, f, head);
        snap();
    }
    bool before = f.good(); f.close(); st.good = before && f.good();
}
namespace {
struct R1 : VtkReader {
    ImportModelFromVTK<double>* m; ~R1() { sim::Lib l; delete m; }
    static Rows rows(std::vector<Vector<double> >& v) { sim::NoLib nl; Rows r; for (auto& x : v) r.push_back(vals(x)); return r; }
    static Rows rows(std::vector<double>& v) { sim::NoLib nl; Rows r; for (auto& x : v) r.push_back({x}); return r; }
    Rows query(int k, const std::string& n) {
        sim::Lib l;
        if (k == 0) { auto v = m->ImportPOINTS(); return rows(v); }
        if (k == 1) { auto v = m->ImportCELLS(); sim::NoLib nl; Rows r; for (auto& e : v) r.push_back(std::vector<double>(e.begin(), e.end())); return r; }
        if (k == 2) { auto v = m->ImportPOINTVECTORS(n); return rows(v); }
        if (k == 3) { auto v = m->ImportPOINTSCALARS(n); return rows(v); }
        if (k == 4) { auto v = m->ImportCELLVECTORS(n); return rows(v); }
        auto v = m->ImportCELLSCALARS(n); return rows(v);
    }
};
int uniq = 0;
std::string fresh(const char* what) { return std::string("/sim/") + what + ll(uniq++); }
Case csv_case(Rng& g) {
    std::shared_ptr<Csv> c(new Csv(gen_csv(g))); if (c->text.size() > 6000) c->text.resize(c->text.rfind('\n', 6000) + 1); std::string p = fresh("csv"); sim::disk_put(p, c->text);
    Case k; k.inputs = [=](Out& o) { put(o, sim::disk_get(p)); }; k.run = [=](Out& o) { Rows out; int r = import_csv(c->kind, p, c->pre, out); o.i(r); put(o, out); }; return k;
}
Case vtk_in(Rng& g) {
    std::shared_ptr<Vtk> m(new Vtk(gen_vtk(g, false))); std::string p = fresh("vtk"); sim::disk_put(p, render_vtk(g, *m)); std::vector<int> order; int n = g.range(1, 4); for (int i = 0; i < n; i++) order.push_back((int)g.below(2 + m->fields.size())); std::sort(order.begin(), order.end()); bool v2 = g.chance(0.3);
    Case k; k.inputs = [=](Out& o) { put(o, sim::disk_get(p)); };
    k.run = [=](Out& o) { std::unique_ptr<VtkReader> r(v2 ? open_vtk2(p) : open_vtk1(p, m->dim)); for (int q : order) { if (v2 && q > 1) continue; put(o, q < 2 ? r->query(q, "") : r->query((m->fields[q - 2].cell ? 4 : 2) + (m->fields[q - 2].vec ? 0 : 1), m->fields[q - 2].name)); } };
    return k;
}
Case vtk_out(Rng& g) {
    std::shared_ptr<Vtk> m(new Vtk(gen_vtk(g, true))); int style = (int)g.below(2); std::string p = fresh("out");
    Case k; k.run = [=](Out& o) { std::string q = p + "." + ll(sim::self()); ExportState st; export_vtk(*m, q, style, st); o.b(st.opened); o.b(st.good); put(o, sim::disk_get(q)); }; return k;
}
AtStart st([] { reg("CSV import", "io", csv_case, 5); reg("VTK import", "io", vtk_in, 4); reg("VTK export", "io", vtk_out, 4); });
}
VtkReader* open_vtk1(const std::string& p, int dim) { std::unique_ptr<R1> r(new R1()); r->m = nullptr; { sim::Lib l; r->m = new ImportModelFromVTK<double>(p, dim); } return r.release(); }
