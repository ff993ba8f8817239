// C12: VTK export when writes are short, interrupted, refused or lost.
//PARTS: io io2
#include "ioenv.h"
using namespace sim;
static std::string reference(const Vtk& m, int style) {      // what a fault-free export writes
    Out o = solo([&](Out& out) { ExportState st; export_vtk(m, "/sim/ref", style, st); std::string s = disk_get("/sim/ref"); out.i((long)s.size()); for (size_t i = 0; i < s.size(); i += 8) { u64 w = 0; for (size_t j = 0; j < 8 && i + j < s.size(); j++) w |= (u64)(unsigned char)s[i + j] << (8 * j); out.raw(w); } out.b(st.opened && st.good); });
    std::string s((size_t)o.v[0], 0); for (size_t i = 0; i < s.size(); i++) s[i] = (char)(o.v[1 + i / 8] >> (8 * (i % 8)));
    if (!o.v.back()) fail("false-failure", "a fault-free export left the stream in a failed state");
    return s;
}
static bool prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && b.compare(0, a.size(), a) == 0; }
static void transparent(Rng& g) { int k = (int)g.below(3); if (k == 0) io().max_chunk = g.range(1, 60); else if (k == 1) io().p_short = g.uniform(0.1, 1); if (g.chance(0.5)) io().p_eintr = g.uniform(0.05, 0.6); }
static int run(const Vtk& m, const char* path, int style, ExportState& st) {
    set_budget(200000000ull);
    try { export_vtk(m, path, style, st); return 0; } catch (const std::bad_alloc&) { return 1; } catch (const std::exception& e) { fail("exception", "export threw %s", e.what()); }
}
static void delivery(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, true); int style = (int)g.below(4); std::string ref = reference(m, style); transparent(g); note("export of %zu bytes, chunks of at most %d, short %.2f, EINTR %.2f", ref.size(), io().max_chunk, io().p_short, io().p_eintr);
    ExportState st; run(m, "/sim/a", style, st); std::string s = disk_get("/sim/a"); if (!st.opened || !st.good) fail("false-failure", "short or interrupted writes made the export fail"); if (s != ref) fail("wrong-result", "file differs from the one written without short or interrupted writes (%zu bytes instead of %zu)", s.size(), ref.size());
    for (auto& a : st.after) if (!prefix(a, ref)) fail("not-a-prefix", "between two calls the file is not the beginning of the final file"); mix_hash(s.size());
}
static void write_error(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, true); int style = (int)g.below(4); std::string ref = reference(m, style); size_t at = g.below(ref.size() + 2); int kind = (int)g.below(4);
    if (g.chance(0.4)) transparent(g); if (kind == 0) { io().err_at = (i64)at; io().err_kind = 0; } else if (kind == 1) { io().err_at = (i64)at; io().err_kind = 1; } else if (kind == 2) io().capacity = (i64)at; else { io().p_err = g.uniform(0.02, 0.5); io().p_close = 0.3; io().p_open = 0.1; }
    note("export of %zu bytes, %s at byte %zu", ref.size(), kind == 0 ? "EIO" : kind == 1 ? "ENOSPC" : kind == 2 ? "disk full" : "random write errors", at);
    ExportState st; u64 f0 = io_faults(); run(m, "/sim/a", style, st); bool hit = io_faults() > f0; std::string s = disk_get("/sim/a"); mix_hash(s.size() * 2 + st.good);
    if (st.opened && st.good && s != ref) fail("silent-data-loss", "the stream says everything was written, but %zu of %zu bytes are on the disk", s.size(), ref.size());
    if (!hit && !(st.opened && st.good)) fail("false-failure", "the export failed although no write was refused");
    if (kind < 3 && !prefix(s, ref)) fail("not-a-prefix", "what reached the disk is not the beginning of the file");
    if (st.opened && hit && !st.good) probe("failure_visible"); else if (!hit) probe("error_beyond_end");
}
static void power_loss(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, true); int style = (int)g.below(4); std::string ref = reference(m, style); io().crash_at = (i64)g.below(ref.size() + 1); if (g.chance(0.6)) transparent(g); note("export of %zu bytes, power lost after byte %lld", ref.size(), (long long)io().crash_at);
    ExportState st; run(m, "/sim/a", style, st); std::string s = disk_get("/sim/a"); mix_hash(s.size()); if (s != ref.substr(0, (size_t)io().crash_at)) fail("not-a-prefix", "after a power loss the file is not the first %lld bytes of the complete file", (long long)io().crash_at); probe("power_lost");
}
static void memory(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Vtk m = gen_vtk(g, true); int style = (int)g.below(2); std::string ref = reference(m, style); u64 a0 = alloc_count(); LeakMark mark0 = leak_mark(); { ExportState st; run(m, "/sim/a", style, st); } u64 n = alloc_count() - a0, cap = R.quick ? 40 : 300; note("export of %zu bytes, %llu allocations refused in turn", ref.size(), (unsigned long long)n);
    if (leaked(mark0)) fail("leak", "export left blocks allocated");
    for (u64 i = 0; i < std::min(n, cap); i++) {
        u64 k = n <= cap ? i : g.below(n), f0 = alloc_failures(); alloc_fail_at(alloc_count() + k, 1); ExportState st; int r = run(m, "/sim/a", style, st); alloc_fail_clear(); bool hit = alloc_failures() > f0; std::string s = disk_get("/sim/a"); mix_hash(k * 2 + r);
        if (r && !hit) fail("exception", "export ran out of memory although no allocation was refused"); if (!r && st.opened && st.good && s != ref) fail("silent-data-loss", "the stream says everything was written, but the file is incomplete after an allocation failure"); if (!prefix(s, ref)) fail("not-a-prefix", "what reached the disk is not the beginning of the file"); if (leaked(mark0)) fail("leak", "export left %lld blocks allocated", (long long)leaked(mark0)); probe(r ? "bad_alloc" : "absorbed");
    }
    ExportState st; run(m, "/sim/a", style, st); if (!st.good || disk_get("/sim/a") != ref) fail("no-recovery", "export does not work after memory is available again");
}
Property& sim::property() {
    static Property P;
    P.id = "C12"; P.level = "fault_enumeration";
    P.rule = "Each run draws a model (nodes, cells, scalar and vector fields on points and cells, empty to several hundred entries), exports it with the real exporter, and injects short writes, EINTR, EIO or ENOSPC at a chosen byte, a disk of limited capacity, random write/open/close errors, a power loss after a chosen byte, or every allocation refused in turn. The bytes on the simulated disk are compared with a fault-free export. Distinct by the hash of workload, faults and bytes written; non-trivial: at least one fault injected.";
    P.scenarios = {{"delivery", delivery, 3}, {"write_error", write_error, 5}, {"power_loss", power_loss, 3}, {"memory", memory, 2}};
    P.real_components = {"src/PrePost/Export/ExportToVTK.h, src/LinearAlgebra/Models/Vector.h (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk under fopen/read/write/lseek/fstat/fclose)", "operator new/delete (simulated heap)"};
    P.assumptions = {"the caller closes the stream and looks at its state", "the disk applies writes in order"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 15; P.thorough_seconds = 900;
    return P;
}
