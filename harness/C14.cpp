// C14: what the exporter writes, the importers read back, however the bytes travel and in whatever order sections are asked for.
//PARTS: io io2
#include "vtkcheck.h"
using namespace sim;
static void transparent(Rng& g) { int k = (int)g.below(4); if (k == 0) io().max_chunk = g.range(1, 9); else if (k == 1) io().max_chunk = g.range(10, 400); else if (k == 2) io().p_short = g.uniform(0.1, 1); if (g.chance(0.5)) io().p_eintr = g.uniform(0.05, 0.5); }
static Rows expect(const Vtk& m, int sec, int version) {
    Rows r; if (sec == 1) for (auto& c : m.cells) r.push_back(std::vector<double>(c.begin(), c.end())); else r = sec == 0 ? m.nodes : m.fields[sec - 2].v;
    if (sec == 0 && version == 2) for (auto& x : r) x.resize(3, 0.0); return r;
}
static void session(Rng& g, const Vtk& m, const std::string& path, int op0) {
    Rendered f = scan_vtk(disk_get(path), m); int version = g.chance(0.3) ? 2 : 1, ns = version == 2 ? 2 : 2 + (int)m.fields.size(), nq = g.range(1, 8); bool ordered = g.chance(0.5); std::vector<int> seq; for (int i = 0; i < nq; i++) seq.push_back((int)g.below(ns));
    if (ordered) { std::sort(seq.begin(), seq.end()); seq.erase(std::unique(seq.begin(), seq.end()), seq.end()); }
    for (int s = 0; s < ns; s++) if (f.head[s] == std::string::npos) fail("wrong-result", "the file has no section for %s", qtext(m, s).c_str());
    std::unique_ptr<VtkReader> rd; try { rd.reset(version == 2 ? open_vtk2(path) : open_vtk1(path, m.dim)); } catch (const std::exception& e) { fail("exception", "opening threw %s", e.what()); }
    size_t pos = 0; bool redo = false;       // the first importer reads forward: a section behind the reading position is not found once, then reading starts over
    for (size_t q = 0; q < seq.size(); q++) {
        if (!enabled(op0 + (int)q)) continue; int sec = seq[q]; Rows got, w = expect(m, sec, version); try { got = rd->query(qkind(m, sec), qname(m, sec)); } catch (const std::exception& e) { fail("exception", "importing %s threw %s", qtext(m, sec).c_str(), e.what()); }
        mix_hash(got.size() * 16 + sec);
        if (got == w && !(w.empty() && version == 1)) { pos = f.row[sec].empty() ? f.head[sec] + 1 : f.row[sec].back().second; continue; }
        if (version == 2) fail("wrong-result", "%s read back by version 2 differs from what was written (%zu rows instead of %zu)", qtext(m, sec).c_str(), got.size(), w.size());
        if (got.empty() && w.empty()) { pos = f.head[sec] >= pos ? f.head[sec] + 1 : 0; continue; }
        if (got.empty() && f.head[sec] < pos) { pos = 0; probe("asked_out_of_order"); if (!redo) { redo = true; seq.insert(seq.begin() + q + 1, sec); } else redo = false; continue; }
        if (got.empty()) fail("data-lost", "%s lies ahead in the file but nothing was returned", qtext(m, sec).c_str());
        fail("wrong-result", "%s read back differs from what was written (%zu rows instead of %zu)", qtext(m, sec).c_str(), got.size(), w.size());
    }
    probe(ordered ? "sections_in_file_order" : "sections_in_any_order");
}
static void round_trip(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, true); transparent(g); set_budget(300000000ull); ExportState st; export_vtk(m, "/sim/a", (int)g.below(2), st); if (!st.opened || !st.good) fail("false-failure", "export failed without a fault"); note("%zu nodes, %zu cells, %zu fields exported and read back", m.nodes.size(), m.cells.size(), m.fields.size()); int n = g.range(1, 2); for (int i = 0; i < n; i++) session(g, m, "/sim/a", i * 30);
}
static void foreign(Run& R) { Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, false); disk_put("/sim/a", render_vtk(g, m)); transparent(g); set_budget(300000000ull); note("file of another writer: %zu nodes, %zu cells, %zu fields", m.nodes.size(), m.cells.size(), m.fields.size()); int n = g.range(1, 2); for (int i = 0; i < n; i++) session(g, m, "/sim/a", i * 30); }
static void pipeline(Run& R) {      // several writers, each followed by its reader, at the same time
    Rng& g = R.rng; heap_policy(g.next()); int n = g.range(2, 3); std::vector<Vtk> ms; std::vector<Rng> gs; for (int i = 0; i < n; i++) { do ms.push_back(gen_vtk(g, true)); while (ms.back().nodes.size() + ms.back().cells.size() > 60 && (ms.pop_back(), true)); gs.push_back(Rng(g.next())); } transparent(g); default_sched(g); note("%d writers and readers at once", n); set_budget(400000000ull);
    for (int i = 0; i < n; i++) spawn([&, i] { std::string p = "/sim/f" + num(i, 3); ExportState st; export_vtk(ms[i], p, i % 2, st); if (!st.opened || !st.good) fail("false-failure", "export failed without a fault"); session(gs[i], ms[i], p, i * 20); });
    join_all();
}
Property& sim::property() {
    static Property P;
    P.id = "C14"; P.level = "exploration";
    P.rule = "Each run draws a model, writes it with the real exporter (or with the harness's own writer: other separators, precision, section order, no final newline), and reads sections back with one of the two importers in file order or any order, while transfers are short or interrupted; or several writer/reader pairs run at once. Distinct by the hash of workload, schedule, transfers and results; non-trivial: at least one short or interrupted transfer or one context switch.";
    P.scenarios = {{"round_trip", round_trip, 4}, {"foreign", foreign, 4}, {"pipeline", pipeline, 3}};
    P.real_components = {"src/PrePost/Export/ExportToVTK.h, src/PrePost/Import/{ImportFromVTK,ImportFromVTK2}.h, src/LinearAlgebra/Models/Vector.h (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk under fopen/read/write/lseek/fstat/fclose)", "operator new/delete (simulated heap with seeded garbage)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"values are representable in the six significant digits the exporter prints", "field names do not contain VTK keywords"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 15; P.thorough_seconds = 900;
    return P;
}
