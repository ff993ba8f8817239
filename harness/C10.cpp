// C10: CSV import when the file cannot be opened, read to the end, or stored: bounded, honest about failure, never inventing records.
//PARTS: io io2
#include "ioenv.h"
using namespace sim;
static bool prefix(const Rows& a, const Rows& b) { if (a.size() > b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
// initial conditions overwrite a table: every entry must be the old one or what some whole record says (an entry set twice may hold either)
static bool table_ok(const Csv& c, size_t n, const Rows& got, std::string& why) {
    if (got.size() != c.pre.size()) { why = "table size changed"; return false; }
    std::vector<std::vector<std::vector<double> > > may(c.pre.size());
    for (size_t i = 0; i < c.pre.size(); i++) { may[i].resize(c.pre[i].size()); for (size_t j = 0; j < c.pre[i].size(); j++) may[i][j].push_back(c.pre[i][j]); }
    Csv d = c; for (size_t k = 0; k <= n; k++) if (k == n || c.text[k] == '\n' || c.text[k] == ' ') { Rows w; std::string cut; size_t m = k < n ? k + 1 : n; csv_model(d, m, w, cut); for (int pass = 0; pass < 2; pass++) { if (pass) { if (k < n || cut.empty()) break; csv_record(CSV_INITIAL, cut, w); } for (size_t i = 0; i < w.size(); i++) for (size_t j = 0; j < w[i].size(); j++) may[i][j].push_back(w[i][j]); } }
    for (size_t i = 0; i < got.size(); i++) for (size_t j = 0; j < got[i].size(); j++) { bool ok = false; for (double v : may[i][j]) if (v == got[i][j]) ok = true; if (!ok) { why = "node " + num(i, 9) + " component " + num(j, 9) + " holds " + num(got[i][j], 17) + ", which the file does not say"; return false; } }
    return true;
}
// outcome: 1 true 0 false 2 bad_alloc 3 other exception.  lost: an error (not a clean end of file) was reported to the reader; n: bytes available
static void judge(const Csv& c, const Rows& got, int outcome, size_t n, bool lost, const char* what) {
    Rows whole, full; std::string cut, x; csv_model(c, n, whole, cut); csv_model(c, c.text.size(), full, x);
    if (outcome == 1) {
        if (lost) { if (got != full) fail("silent-data-loss", "%s reported success after %s although only %zu of %zu records arrived", CSV_NAME[c.kind], what, got.size(), full.size()); return; }
        if (got == whole) return; Rows p = whole; csv_record(c.kind, cut, p); if (got == p) return;
        fail("fabricated-data", "%s reported success after %s with records the file does not contain (%zu records, file has %zu whole ones)", CSV_NAME[c.kind], what, got.size(), whole.size());
    }
    // failed: whatever the caller's containers hold must come from the file
    if (c.kind == CSV_INITIAL) { if (got.size() * c.text.size() > 40000) return; std::string why; if (!table_ok(c, n, got, why)) fail("fabricated-data", "%s after %s: %s", CSV_NAME[c.kind], what, why.c_str()); return; }
    Rows p = whole; csv_record(c.kind, cut, p);
    if (!prefix(got, p)) fail("fabricated-data", "%s failed after %s but left records the file does not contain", CSV_NAME[c.kind], what);
    if (got.size() < c.pre.size()) fail("fabricated-data", "%s dropped what the caller already had", CSV_NAME[c.kind]);
}
static int call(const Csv& c, const std::string& path, Rows& got) {
    set_budget(20000000ull + 4000ull * c.text.size());
    try { return import_csv(c.kind, path, c.pre, got); }
    catch (const std::bad_alloc&) { return 2; }
    catch (const std::exception&) { return 3; }
}
static void transparent(Rng& g) { if (g.chance(0.4)) { io().max_chunk = g.range(1, 64); } if (g.chance(0.4)) io().p_short = g.uniform(0, 0.8); if (g.chance(0.3)) io().p_eintr = g.uniform(0, 0.4); }
static size_t cut_point(Rng& g, const Csv& c) { size_t n = c.text.size(); int k = (int)g.below(4); if (k == 0 && n) { size_t p = c.text.find('\n', g.below(n)); return p == std::string::npos ? n : std::min(n, p + g.below(2)); } if (k == 1) return n - std::min<size_t>(n, g.below(4)); return g.below(n + 1); }
// the disk stops delivering at some byte
static void read_error(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Csv c = gen_csv(g); disk_put("/sim/a", c.text); size_t at = cut_point(g, c); int kind = (int)g.below(3); bool eof = kind == 2;
    io().err_at = (i64)at; io().err_kind = kind; io().err_sticky = eof || g.chance(0.6); transparent(g);
    note("%s of %zu bytes, %s after byte %zu", CSV_NAME[c.kind], c.text.size(), kind == 0 ? "EIO" : kind == 1 ? "EISDIR" : "premature end of file", at);
    Rows got; u64 f0 = io_faults(); int r = call(c, "/sim/a", got); bool hit = io_faults() > f0; mix_hash(r * 7 + got.size() * 100);
    if (r == 2) fail("exception", "%s ran out of memory", CSV_NAME[c.kind]);
    if (r == 3) { Rows w; std::string cut; csv_model(c, at, w, cut); if (!eof || cut.empty()) fail("exception", "%s threw after a read error", CSV_NAME[c.kind]); }    // a number cut in half may be refused
    if (!hit && r != 1) fail("false-failure", "%s reported failure although every byte was delivered", CSV_NAME[c.kind]);
    judge(c, got, r, at, !eof && hit, eof ? "a torn file" : "a read error"); probe(eof ? "torn_file" : hit ? "read_error" : "error_beyond_end");
    io() = IoCfg(); Rows again, full; std::string x; csv_model(c, c.text.size(), full, x);
    int r2 = call(c, "/sim/a", again); if (r2 != 1 || again != full) fail("no-recovery", "%s does not work after the fault has gone", CSV_NAME[c.kind]);
}
static void random_errors(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Csv c = gen_csv(g); disk_put("/sim/a", c.text); transparent(g); if (!io().max_chunk) io().max_chunk = g.range(16, 512);
    io().p_err = g.uniform(0.01, 0.5); io().p_open = g.chance(0.4) ? 0.5 : 0; io().p_close = g.chance(0.3) ? 0.5 : 0; note("%s of %zu bytes, reads fail with probability %.2f, open %.1f, close %.1f", CSV_NAME[c.kind], c.text.size(), io().p_err, io().p_open, io().p_close);
    for (int k = 0; k < 4; k++) { if (!enabled(k)) continue; Rows got; int r = call(c, "/sim/a", got); mix_hash(r * 7 + got.size() * 100); if (r >= 2) fail("exception", "%s threw after a read error", CSV_NAME[c.kind]); judge(c, got, r, c.text.size(), true, "read errors"); probe(r == 1 ? "succeeded_despite_faults" : "reported_failure"); }
}
static void open_error(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Csv c = gen_csv(g); bool exists = g.chance(0.5); if (exists) { disk_put("/sim/a", c.text); io().p_open = 1; } note("%s, %s", CSV_NAME[c.kind], exists ? "open fails" : "no such file");
    Rows got; int r = call(c, "/sim/a", got); if (r != 0) fail("silent-data-loss", "%s reported %s although the file could not be opened", CSV_NAME[c.kind], r == 1 ? "success" : "an exception");
    if (got != c.pre) fail("fabricated-data", "%s changed the caller's data although the file could not be opened", CSV_NAME[c.kind]); probe("open_failed");
}
static void memory(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Csv c = gen_csv(g); if (c.text.size() > 3000) c.text.resize(c.text.rfind('\n', 3000) + 1); disk_put("/sim/a", c.text); Rows full; std::string x; csv_model(c, c.text.size(), full, x);
    LeakMark mark0 = leak_mark(); u64 a0 = alloc_count(); { Rows got; if (call(c, "/sim/a", got) != 1 || got != full) fail("wrong-result", "%s did not read the file", CSV_NAME[c.kind]); } u64 n = alloc_count() - a0;
    note("%s of %zu bytes, %llu allocations, refused in turn", CSV_NAME[c.kind], c.text.size(), (unsigned long long)n); bool forever = g.chance(0.3); u64 cap = R.quick ? 60 : 400;
    for (u64 i = 0; i < std::min(n, cap); i++) {
        u64 k = n <= cap ? i : g.below(n); u64 f0 = alloc_failures(); alloc_fail_at(alloc_count() + k, forever ? 1ull << 40 : 1); Rows got; int r = call(c, "/sim/a", got); alloc_fail_clear(); bool hit = alloc_failures() > f0; mix_hash(k * 4 + r);
        if (r == 3) fail("exception", "%s threw something else than std::bad_alloc when memory ran out", CSV_NAME[c.kind]);
        if (r != 1 && !hit) fail("false-failure", "%s failed although nothing went wrong", CSV_NAME[c.kind]);
        judge(c, got, r, c.text.size(), true, "an allocation failure"); if (leaked(mark0)) fail("leak", "%s left %lld blocks allocated", CSV_NAME[c.kind], (long long)leaked(mark0)); probe(r == 1 ? "succeeded_despite_faults" : r == 2 ? "bad_alloc" : "reported_failure");
    }
    Rows got; if (call(c, "/sim/a", got) != 1 || got != full) fail("no-recovery", "%s does not work after memory is available again", CSV_NAME[c.kind]);
}
Property& sim::property() {
    static Property P;
    P.id = "C10"; P.level = "fault_enumeration";
    P.rule = "Each run draws one of the six CSV importers, a file (record count, number formats, line endings, blank lines, missing final newline, lines longer than the stream buffer), what the caller's containers already hold, and faults: EIO, EISDIR or a premature end of file at a chosen byte, random transient read errors, failing open or close, chunking and EINTR, or every allocation refused in turn. Distinct by the hash of workload, faults and outcomes; non-trivial: at least one fault injected.";
    P.scenarios = {{"read_error", read_error, 6}, {"random_errors", random_errors, 3}, {"open_error", open_error, 1}, {"memory", memory, 2}};
    P.real_components = {"src/PrePost/Import/ImportFromCSV.h, src/LinearAlgebra/Models/Vector.h (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk under fopen/read/write/lseek/fstat/fclose)", "operator new/delete (simulated heap)"};
    P.assumptions = {"a file that merely ends early cannot be told from a shorter file: then only whole records, plus what is left of the record the cut goes through, are allowed", "files are otherwise well formed"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
