// C13: a VTK file cut short by a crash, a full disk or a read error: the importers return what is there and nothing else.
//PARTS: io io2
#include "vtkcheck.h"
using namespace sim;
static void transparent(Rng& g) { int k = (int)g.below(4); if (k == 0) io().max_chunk = g.range(1, 60); else if (k == 1) io().p_short = g.uniform(0.1, 1); if (g.chance(0.4)) io().p_eintr = g.uniform(0.05, 0.5); }
// query sections of the file of which n bytes are readable
static void queries(Run& R, const Vtk& m, const Rendered& f, size_t n, bool error) {
    Rng& g = R.rng; int ns = 2 + (int)m.fields.size(); int version = g.chance(0.5) ? 2 : 1; if (version == 2) ns = 2; int nq = g.range(1, 5);
    set_budget(30000000ull + 20000ull * f.text.size());
    std::unique_ptr<VtkReader> rd; try { rd.reset(version == 2 ? open_vtk2("/sim/a") : open_vtk1("/sim/a", m.dim)); } catch (const std::exception& e) { fail("exception", "opening threw %s", e.what()); }
    for (int q = 0; q < nq; q++) {
        int sec = (int)g.below(ns); if (!enabled(q)) continue; Rows got; 
        try { got = rd->query(qkind(m, sec), qname(m, sec)); } catch (const std::exception& e) { fail("exception", "importing %s of a torn file threw %s", qtext(m, sec).c_str(), e.what()); }
        Rows whole; bool hc; std::vector<double> cut; torn_rows(m, f, sec, n, version, whole, hc, cut); mix_hash(got.size() * 8 + sec);
        size_t max = whole.size() + (hc ? 1 : 0);
        if (got.size() > max) fail("fabricated-data", "version %d: %s of a file cut after byte %zu of %zu has %zu rows, only %zu are in the file", version, qtext(m, sec).c_str(), n, f.text.size(), got.size(), whole.size());
        for (size_t i = 0; i < got.size(); i++) { const std::vector<double>& w = i < whole.size() ? whole[i] : cut; if (got[i] != w) fail("fabricated-data", "version %d: row %zu of %s of a file cut after byte %zu of %zu holds values the file does not contain", version, i, qtext(m, sec).c_str(), n, f.text.size()); }
        bool first = q == 0 || (version == 2 && !error); if (first && f.head[sec] < n && got.size() < whole.size()) fail("data-lost", "version %d: %s has %zu whole rows before the cut, %zu were imported", version, qtext(m, sec).c_str(), whole.size(), got.size());
        if (got.size() < f.row[sec].size()) probe("shortened_section"); if (hc && got.size() == max) probe("cut_row_kept");
    }
}
static size_t cut_point(Rng& g, const Rendered& f) {
    int k = (int)g.below(4); size_t n = f.text.size();
    if (k == 0) { int sec = (int)g.below(f.head.size()); if (f.head[sec] != std::string::npos) return std::min(n, f.head[sec] + g.below(30)); }
    if (k == 1) { int sec = (int)g.below(f.head.size()); if (!f.row[sec].empty()) { auto& r = f.row[sec][g.below(f.row[sec].size())]; return r.first + g.below(r.second - r.first + 1); } }
    return g.below(n + 1);
}
// exporter loses power, machine restarts, importer reads what is left
static void crash_restart(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, true); int style = (int)g.below(2);
    { ExportState st; export_vtk(m, "/sim/full", style, st); } Rendered f = scan_vtk(disk_get("/sim/full"), m); size_t at = cut_point(g, f);
    io().crash_at = (i64)(at + f.text.size()); transparent(g); { ExportState st; export_vtk(m, "/sim/a", style, st); } io().crash_at = -1;      // the first export counts towards the bytes written
    std::string s = disk_get("/sim/a"); note("exporter lost power after byte %zu of %zu", at, f.text.size()); if (f.text.compare(0, s.size(), s) || s.size() > f.text.size()) fail("not-a-prefix", "what the exporter left is not the beginning of the file");
    queries(R, m, f, s.size(), false); probe("crash_restart");
}
static void torn(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, false); Rendered f = scan_vtk(render_vtk(g, m), m); size_t at = cut_point(g, f); disk_put("/sim/a", f.text.substr(0, at)); transparent(g); note("file of %zu bytes torn after byte %zu", f.text.size(), at); queries(R, m, f, at, false); probe("torn_file"); if (at < f.text.size()) mark();
}
static void read_error(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, false); Rendered f = scan_vtk(render_vtk(g, m), m); size_t at = cut_point(g, f); disk_put("/sim/a", f.text); int kind = (int)g.below(3); io().err_at = (i64)at; io().err_kind = kind; transparent(g); note("file of %zu bytes, %s after byte %zu", f.text.size(), kind == 0 ? "EIO" : kind == 1 ? "EISDIR" : "premature end of file", at);
    u64 f0 = io_faults(); queries(R, m, f, at, kind != 2); if (io_faults() > f0) probe("read_error_hit");
}
static void no_file(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, false); Rendered f = scan_vtk(render_vtk(g, m), m); if (g.chance(0.5)) { disk_put("/sim/a", f.text); io().p_open = 1; } note("file cannot be opened"); queries(R, m, f, 0, true); probe("no_file"); mark();
}
// every allocation of an import refused in turn
static void memory(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, false); Rendered f = scan_vtk(render_vtk(g, m), m); disk_put("/sim/a", f.text); int version = g.chance(0.4) ? 2 : 1, ns = version == 2 ? 2 : 2 + (int)m.fields.size(), sec = (int)g.below(ns); set_budget(400000000ull);
    auto go = [&](Rows& got) { try { std::unique_ptr<VtkReader> rd(version == 2 ? open_vtk2("/sim/a") : open_vtk1("/sim/a", m.dim)); got = rd->query(qkind(m, sec), qname(m, sec)); return true; } catch (const std::bad_alloc&) { return false; } catch (const std::exception& e) { fail("exception", "importing %s threw %s when memory ran out", qtext(m, sec).c_str(), e.what()); } };
    Rows w; bool hc; std::vector<double> cut; torn_rows(m, f, sec, f.text.size(), version, w, hc, cut); LeakMark mark0 = leak_mark(); u64 a0 = alloc_count(); Rows full; go(full); u64 n = alloc_count() - a0, cap = R.quick ? 40 : 300; note("version %d importing %s of %zu bytes, %llu allocations refused in turn", version, qtext(m, sec).c_str(), f.text.size(), (unsigned long long)n);
    if (full != w) fail("wrong-result", "%s was not read correctly", qtext(m, sec).c_str());
    for (u64 i = 0; i < std::min(n, cap); i++) {
        u64 k = n <= cap ? i : g.below(n); alloc_fail_at(alloc_count() + k, 1); Rows got; bool ok = go(got); alloc_fail_clear(); mix_hash(k * 2 + ok); probe(ok ? "absorbed" : "bad_alloc");
        if (ok) { if (got.size() > w.size()) fail("fabricated-data", "more rows of %s than the file has after an allocation failure", qtext(m, sec).c_str()); for (size_t r = 0; r < got.size(); r++) if (got[r] != w[r]) fail("fabricated-data", "row %zu of %s holds values the file does not contain after an allocation failure", r, qtext(m, sec).c_str()); }
        if (leaked(mark0)) fail("leak", "%lld blocks still allocated after a failed import", (long long)leaked(mark0));
    }
    Rows again; if (!go(again) || again != w) fail("no-recovery", "import does not work after memory is available again");
}
Property& sim::property() {
    static Property P;
    P.id = "C13"; P.level = "fault_enumeration";
    P.rule = "Each run draws a model and a byte position: the real exporter loses power there and after a restart the real importers (both versions) read what is left; or a file written by the harness is cut there; or reads fail there (EIO, EISDIR, premature end); or every allocation of an import is refused in turn. Up to five sections are queried on one importer object and compared with an independent reading of the surviving bytes. Distinct by the hash of workload, faults and results; non-trivial: at least one fault injected (a cut counts when bytes are missing).";
    P.scenarios = {{"crash_restart", crash_restart, 4}, {"torn", torn, 4}, {"read_error", read_error, 4}, {"no_file", no_file, 1}, {"memory", memory, 2}};
    P.real_components = {"src/PrePost/Export/ExportToVTK.h, src/PrePost/Import/{ImportFromVTK,ImportFromVTK2}.h, src/LinearAlgebra/Models/Vector.h (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk under fopen/read/write/lseek/fstat/fclose)", "operator new/delete (simulated heap with seeded garbage)", "power supply (writes after the crash point never reach the disk)"};
    P.assumptions = {"a number cut in half cannot be told from a shorter number: the row the cut goes through may be returned as far as it still reads as a complete row"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 15; P.thorough_seconds = 900;
    return P;
}
