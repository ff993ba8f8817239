// What the VTK importers may return for (part of) a file.
#pragma once
#include "ioenv.h"
inline int qkind(const Vtk& m, int sec) { return sec < 2 ? sec : (m.fields[sec - 2].cell ? 4 : 2) + (m.fields[sec - 2].vec ? 0 : 1); }
inline std::string qname(const Vtk& m, int sec) { return sec < 2 ? std::string() : m.fields[sec - 2].name; }
inline std::string qtext(const Vtk& m, int sec) { return sec == 0 ? "POINTS" : sec == 1 ? "CELLS" : (m.fields[sec - 2].cell ? "cell field " : "point field ") + m.fields[sec - 2].name; }
// parse one row from text, as many numbers as are complete; ok: all of them there.  version 2 reads three coordinates
inline bool parse_row(const Vtk& m, int sec, const std::string& l, int version, std::vector<double>& r) {
    std::istringstream is(l); r.clear(); int want = sec == 0 ? (version == 2 ? 3 : m.dim) : sec == 1 ? -1 : m.fields[sec - 2].vec ? m.dim : 1;
    if (want < 0) { int n; if (!(is >> n)) return false; for (int i = 0; i < n; i++) { int k; if (!(is >> k)) return false; r.push_back(k); } return true; }
    for (int i = 0; i < want; i++) { double x; if (!(is >> x)) return false; r.push_back(x); }
    return true;
}
// rows of section sec in the first n bytes of the file: whole rows, and possibly the row the cut goes through (when it still parses)
inline void torn_rows(const Vtk& m, const Rendered& f, int sec, size_t n, int version, Rows& whole, bool& has_cut, std::vector<double>& cut) {
    whole.clear(); has_cut = false;
    for (auto& r : f.row[sec]) {
        if (r.second <= n) { std::vector<double> v; parse_row(m, sec, f.text.substr(r.first, r.second - r.first), version, v); whole.push_back(v); continue; }
        if (r.first < n) has_cut = parse_row(m, sec, f.text.substr(r.first, n - r.first), version, cut);
        break;
    }
}
