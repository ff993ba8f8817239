// File import and export: generated files with independent models of what they say.
#pragma once
#include "catalog.h"
#include <algorithm>
#include <cstdlib>
#include <sstream>
typedef std::vector<std::vector<double> > Rows;
inline std::string num(double x, int prec) { char b[64]; snprintf(b, sizeof b, "%.*g", prec, x); return b; }
// ------------------------------------------------------------------ CSV
enum { CSV_NODES, CSV_ELEMENTS, CSV_DIRICHLET, CSV_NEUMANN, CSV_INITIAL, CSV_PERIODIC, CSV_KINDS };
static const char* const CSV_NAME[] = {"ImportNodesFromCSV", "ImportElementsFromCSV", "ImportDirichletFromCSV", "ImportNeumannFromCSV", "ImportInitialFromCSV", "ImportPeriodicFromCSV"};
struct Csv { int kind; std::string text; Rows pre; };          // pre: what the caller's containers hold before the call
// what a token (one record) contributes; stops where a number cannot be parsed. u: table for initial conditions
inline bool is_num(const std::string& s) { if (s.empty()) return false; char* e; strtod(s.c_str(), &e); return e != s.c_str(); }
inline void csv_record(int kind, const std::string& tok, Rows& out) {
    std::vector<std::string> f; size_t a = 0; for (;;) { size_t b = tok.find(',', a); if (b == std::string::npos) { if (a < tok.size()) f.push_back(tok.substr(a)); break; } f.push_back(tok.substr(a, b - a)); a = b + 1; }
    if (f.empty() || f[0].empty()) return;
    auto D = [](const std::string& s) { return strtod(s.c_str(), nullptr); }; auto I = [](const std::string& s) { return (double)strtol(s.c_str(), nullptr, 10); };
    if (kind == CSV_NODES || kind == CSV_ELEMENTS) { std::vector<double> r; for (size_t i = 1; i < f.size(); i++) { if (!is_num(f[i])) return; r.push_back(kind == CSV_NODES ? D(f[i]) : I(f[i])); } out.push_back(r); }
    else if (kind == CSV_DIRICHLET || kind == CSV_NEUMANN) { for (size_t i = 1; i < f.size(); i++) if (f[i] != "free") { if (!is_num(f[i])) return; out.push_back({I(f[0]), (double)(i - 1), D(f[i])}); } }
    else if (kind == CSV_INITIAL) { size_t id = (size_t)I(f[0]); if (!is_num(f[0]) || id >= out.size()) return; for (size_t i = 1; i < f.size() && i - 1 < out[id].size(); i++) if (f[i] != "free") { if (!is_num(f[i])) return; out[id][i - 1] = D(f[i]); } }
    else { if (f.size() >= 2 && is_num(f[0]) && is_num(f[1])) out.push_back({I(f[0]), I(f[1])}); }
}
// records of the first n bytes: whole = tokens followed by white space (or everything, when n is the end of the file and eof is true), cut = a token the cut goes through
inline void csv_model(const Csv& c, size_t n, Rows& whole, std::string& cut) {
    whole = c.pre; cut.clear(); std::string s = c.text.substr(0, n); size_t p = s.find('\n'); if (p == std::string::npos) return; p++;
    auto sp = [](char x) { return x == ' ' || x == '\n' || x == '\r' || x == '\t' || x == '\v' || x == '\f'; };
    while (p < s.size()) { while (p < s.size() && sp(s[p])) p++; size_t q = p; while (q < s.size() && !sp(s[q])) q++; if (q > p) { if (q == s.size() && n < c.text.size()) cut = s.substr(p, q - p); else csv_record(c.kind, s.substr(p, q - p), whole); } p = q; }
}
inline Csv gen_csv(Rng& g, int kind = -1) {
    Csv c; c.kind = kind >= 0 ? kind : (int)g.below(CSV_KINDS); int n = g.chance(0.1) ? 0 : g.chance(0.15) ? g.range(200, 900) : g.range(1, 20), nd = g.range(1, 4); bool crlf = g.chance(0.2), lastnl = g.chance(0.7); int prec = g.chance(0.5) ? 17 : 6; std::string nl = crlf ? "\r\n" : "\n";
    if (c.kind == CSV_INITIAL) { n = std::max(n, 1); for (int i = 0; i < n; i++) { std::vector<double> r; for (int j = 0; j < nd; j++) r.push_back(g.uniform(-9, 9)); c.pre.push_back(r); } }
    else if (g.chance(0.2)) { int k = g.range(1, 3); for (int i = 0; i < k; i++) { if (c.kind == CSV_PERIODIC) c.pre.push_back({(double)g.below(9), (double)g.below(9)}); else if (c.kind == CSV_NODES || c.kind == CSV_ELEMENTS) c.pre.push_back({(double)g.below(9), (double)g.below(9), (double)g.below(9)}); else c.pre.push_back({(double)g.below(9), (double)g.below(3), g.uniform(-1, 1)}); } }
    static const char* const heads[] = {"ID,x,y,z", "ID NODE,a,b,c,d", "", "id,u", "MASTER,SLAVE"}; c.text = heads[g.below(5)]; if (g.chance(0.05)) c.text += std::string(9000, 'h'); 
    auto val = [&]() -> std::string { int k = (int)g.below(8); if (k == 0) return "0"; if (k == 1) return num(g.range(-50, 50), 6); if (k == 2) return num(g.uniform(-1, 1) * std::pow(10.0, g.range(-12, 12)), prec); return num(g.uniform(-100, 100), prec); };
    std::vector<std::string> lines;
    for (int i = 0; i < n; i++) {
        std::string t; int cols = nd;
        switch (c.kind) {
            case CSV_NODES: t = num(i, 9); for (int j = 0; j < cols; j++) t += "," + val(); break;
            case CSV_ELEMENTS: t = num(i, 9); cols = g.range(1, 8); if (g.chance(0.002)) cols = 3000; for (int j = 0; j < cols; j++) t += "," + num((double)g.below(100000), 9); break;
            case CSV_DIRICHLET: case CSV_NEUMANN: t = num((double)g.below(5000), 9); for (int j = 0; j < cols; j++) t += "," + (g.chance(0.3) ? std::string("free") : val()); break;
            case CSV_INITIAL: { t = num((double)g.below(n), 9); int k = cols; if (g.chance(0.1)) k = g.range(1, cols); for (int j = 0; j < k; j++) t += "," + (g.chance(0.3) ? std::string("free") : val()); break; }
            default: t = num((double)g.below(5000), 9) + "," + num((double)g.below(5000), 9); break;
        }
        if (g.chance(0.03)) t += ","; if (g.chance(0.03)) t += " "; lines.push_back(t); if (g.chance(0.03)) lines.push_back(""); if (g.chance(0.03)) lines.push_back(t);      // the same record twice
    }
    if (!c.text.empty() || !lines.empty() || lastnl) { for (auto& l : lines) c.text += nl + l; if (lastnl) c.text += nl; }
    return c;
}
// runs the real importer. returns 1 true, 0 false; lets exceptions through after storing what the caller's containers hold
int import_csv(int kind, const std::string& path, const Rows& pre, Rows& out);
// ------------------------------------------------------------------ VTK
struct Field { std::string name; bool cell, vec; Rows v; };
struct Vtk { int dim; Rows nodes; std::vector<std::vector<int> > cells; std::vector<int> types; std::vector<Field> fields; };
inline Vtk gen_vtk(Rng& g, bool exportable) {
    Vtk m; m.dim = g.range(1, 3); int nn = g.chance(0.1) ? 0 : g.chance(0.1) ? g.range(300, 700) : g.range(1, 15), ne = g.chance(0.1) ? 0 : g.chance(0.1) ? g.range(200, 700) : g.range(1, 12), kmax = g.chance(0.15) ? 27 : 8;
    auto val = [&]() { int k = (int)g.below(8); double x = k == 0 ? 0 : k == 1 ? g.range(-50, 50) : k == 2 ? g.uniform(-1, 1) * std::pow(10.0, g.range(-12, 12)) : g.uniform(-100, 100); return strtod(num(x, 6).c_str(), nullptr); };   // representable in the six digits the exporter prints
    for (int i = 0; i < nn; i++) { std::vector<double> r; for (int j = 0; j < m.dim; j++) r.push_back(val()); m.nodes.push_back(r); }
    for (int i = 0; i < ne; i++) { std::vector<int> e; int k = g.range(1, kmax); for (int j = 0; j < k; j++) e.push_back((int)g.below(nn ? nn * (g.chance(0.1) ? 1000 : 1) : 1)); m.cells.push_back(e); m.types.push_back(g.range(1, 25)); }
    int nf = g.range(0, 5); static const char* const names[] = {"u", "rho", "stress", "rho2", "velocity_x", "T", "p", "uu", "float", "U", "density", "velocity"};
    for (int i = 0; i < nf; i++) { Field f; f.cell = g.chance(0.4); f.vec = g.chance(0.5); if (f.cell && exportable) f.vec = false;
        f.name = names[g.below(12)]; if (g.chance(0.3)) f.name = names[g.chance(0.5) ? 1 : 3]; bool dup = false; for (auto& x : m.fields) if (x.name == f.name && x.cell == f.cell && x.vec == f.vec) dup = true; if (dup) continue;      // names may be parts of one another, and a point and a cell field may share one
         int n = f.cell ? ne : nn; for (int k = 0; k < n; k++) { std::vector<double> r; for (int j = 0; j < (f.vec ? m.dim : 1); j++) r.push_back(val()); f.v.push_back(r); } m.fields.push_back(f); }
    bool cellfirst = !exportable && g.chance(0.3); std::stable_sort(m.fields.begin(), m.fields.end(), [=](const Field& a, const Field& b) { return cellfirst ? a.cell > b.cell : a.cell < b.cell; });
    return m;
}
// a file written by the harness itself, with the exact numbers; line[] gives for every section (0 points, 1 cells, 2+i field i) where its rows start
struct Rendered { std::string text; std::vector<size_t> head; std::vector<std::vector<std::pair<size_t, size_t> > > row; };      // head: offset of the keyword line; row: [begin,end) of each row's line, newline included
inline Rendered scan_vtk(const std::string& text, const Vtk& m) {      // locate the sections in a file (exporter's or harness's)
    Rendered r; r.text = text; size_t ns = 2 + m.fields.size(); r.head.assign(ns, std::string::npos); r.row.resize(ns); size_t p = 0; int mode = 0;
    auto eol = [&](size_t q) { size_t e = text.find('\n', q); return e == std::string::npos ? text.size() : e + 1; };
    while (p < text.size()) {
        size_t e = eol(p); std::string l = text.substr(p, e - p); std::istringstream is(l); std::string a, b; is >> a >> b; int sec = -1; size_t n = 0, skip = 0;
        if (a == "POINTS") { sec = 0; n = m.nodes.size(); } else if (a == "CELLS") { sec = 1; n = m.cells.size(); } else if (a == "POINT_DATA") mode = 1; else if (a == "CELL_DATA") mode = 2;
        else if (a == "SCALARS" || a == "VECTORS") for (size_t i = 0; i < m.fields.size(); i++) if (m.fields[i].name == b && m.fields[i].vec == (a == "VECTORS") && m.fields[i].cell == (mode == 2)) { sec = 2 + (int)i; n = m.fields[i].v.size(); skip = a == "SCALARS"; }
        if (sec >= 0) { r.head[sec] = p; size_t q = e; if (skip) q = eol(q); for (size_t i = 0; i < n && q < text.size(); i++) { size_t z = eol(q); r.row[sec].push_back({q, z}); q = z; } p = q; } else p = e;
    }
    return r;
}
inline std::string render_vtk(Rng& g, const Vtk& m) {
    std::string s = "# vtk DataFile Version 4.1\nvtk output\nASCII\nDATASET UNSTRUCTURED_GRID\n"; const char* sep = g.chance(0.5) ? "\t" : " "; bool trail = g.chance(0.5); int prec = g.chance(0.5) ? 17 : 9; auto blank = [&] { if (g.chance(0.6)) s += "\n"; };
    auto rows = [&](const Rows& v, int pad) { for (auto& r : v) { std::string l; for (size_t j = 0; j < r.size(); j++) { if (j) l += sep; l += num(r[j], prec); } for (int j = (int)r.size(); j < pad; j++) { l += sep; l += "0"; } if (trail) l += sep; s += l + "\n"; } };
    blank(); s += "POINTS" + std::string(sep) + num((double)m.nodes.size(), 9) + sep + "float\n"; rows(m.nodes, 3); blank();
    size_t tot = 0; for (auto& c : m.cells) tot += c.size() + 1; s += "CELLS" + std::string(sep) + num((double)m.cells.size(), 9) + sep + num((double)tot, 9) + "\n";
    for (auto& c : m.cells) { s += num((double)c.size(), 9); for (int k : c) { s += sep; s += num(k, 9); } if (trail) s += sep; s += "\n"; } blank();
    s += "CELL_TYPES" + std::string(sep) + num((double)m.types.size(), 9) + "\n"; for (int t : m.types) s += num(t, 9) + "\n"; int mode = 0;
    for (auto& f : m.fields) { int w = f.cell ? 2 : 1; if (w != mode) { mode = w; blank(); s += std::string(f.cell ? "CELL_DATA" : "POINT_DATA") + sep + num((double)f.v.size(), 9) + "\n"; } s += std::string(f.vec ? "VECTORS " : "SCALARS ") + f.name + " float\n"; if (!f.vec) s += "LOOKUP_TABLE default\n"; rows(f.v, f.vec ? 3 : 1); blank(); }
    if (g.chance(0.2) && s.size() && s.back() == '\n') s.pop_back();
    return s;
}
// the real exporter. style picks between equivalent overloads. state: 1 stream good after close, 0 not; opened: file could be opened
struct ExportState { bool opened, good; std::vector<std::string> after; };
void export_vtk(const Vtk& m, const std::string& path, int style, ExportState& st);
// the real importers: version 1 (ImportFromVTK.h), version 2 (ImportFromVTK2.h)
struct VtkReader { virtual ~VtkReader() {} virtual Rows query(int kind, const std::string& name) = 0; };     // kind 0 points 1 cells 2 point vectors 3 point scalars 4 cell vectors 5 cell scalars
VtkReader* open_vtk1(const std::string& path, int dim);
VtkReader* open_vtk2(const std::string& path);
