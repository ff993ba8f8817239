// C11: CSV import delivers exactly the file's records, however the operating system delivers the bytes.
//PARTS: io io2
#include "ioenv.h"
using namespace sim;
static void chunking(Rng& g) { int k = (int)g.below(4); if (k == 0) io().max_chunk = g.range(1, 7); else if (k == 1) io().max_chunk = g.range(8, 300); else io().p_short = g.uniform(0.1, 1); if (g.chance(0.5)) io().p_eintr = g.uniform(0.05, 0.6); }
static std::string why(const Rows& want, const Rows& got) { if (want.size() != got.size()) return num(got.size(), 9) + " records instead of " + num(want.size(), 9); for (size_t i = 0; i < want.size(); i++) if (want[i] != got[i]) { if (want[i].size() != got[i].size()) return "record " + num(i, 9) + " has " + num(got[i].size(), 9) + " values instead of " + num(want[i].size(), 9); for (size_t j = 0; j < want[i].size(); j++) if (want[i][j] != got[i][j]) return "record " + num(i, 9) + " value " + num(j, 9) + " is " + num(got[i][j], 17) + " instead of " + num(want[i][j], 17); } return "same"; }
static void one(const Csv& c, const std::string& path) {
    Rows full, got; std::string x; csv_model(c, c.text.size(), full, x); int r;
    try { r = import_csv(c.kind, path, c.pre, got); } catch (const std::exception& e) { fail("exception", "%s threw %s on a well-formed file", CSV_NAME[c.kind], e.what()); }
    if (r != 1) fail("false-failure", "%s reported failure on a well-formed file", CSV_NAME[c.kind]);
    if (got != full) fail("wrong-result", "%s: %s", CSV_NAME[c.kind], why(full, got).c_str());
    mix_hash(got.size());
}
static void delivery(Run& R) { Rng& g = R.rng; heap_policy(g.next()); default_sched(g); Csv c = gen_csv(g); disk_put("/sim/a", c.text); chunking(g); note("%s of %zu bytes in chunks of at most %d, short %.2f, EINTR %.2f", CSV_NAME[c.kind], c.text.size(), io().max_chunk, io().p_short, io().p_eintr); set_budget(40000000ull + 20000ull * c.text.size()); one(c, "/sim/a"); if (c.text.size() > 8191) probe("larger_than_stream_buffer"); if (disk_get("/sim/a") != c.text) fail("input-changed", "the import changed the file"); }
static void callers(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); int n = g.range(2, 4); std::vector<Csv> cs; bool same = g.chance(0.3); int kind = g.chance(0.5) ? (int)g.below(CSV_KINDS) : -1;
    for (int i = 0; i < n; i++) { if (same && i) cs.push_back(cs[0]); else cs.push_back(gen_csv(g, kind)); if (cs.back().text.size() > 4000) cs.back().text.resize(cs.back().text.rfind('\n', 4000) + 1); disk_put("/sim/" + num(i, 3), cs.back().text); }
    chunking(g); default_sched(g); note("%d callers importing %s files, chunks of at most %d", n, same ? "the same" : "different", io().max_chunk);
    for (int i = 0; i < n; i++) spawn([&, i] { for (int k = 0; k < 2; k++) if (enabled(i * 2 + k)) one(cs[i], "/sim/" + num(same ? 0 : i, 3)); });
    join_all();
}
Property& sim::property() {
    static Property P;
    P.id = "C11"; P.level = "exploration";
    P.rule = "Each run draws one of the six CSV importers (or 2-4 concurrent callers), well-formed files (record counts, number formats, line endings, blank lines, missing final newline, lines and files longer than the stream buffer) and how the operating system delivers them: chunk sizes from one byte up, short reads, EINTR. The records are compared with an independent parser. Distinct by the hash of workload, schedule, faults and outcome; non-trivial: at least one short or interrupted read or one context switch.";
    P.scenarios = {{"delivery", delivery, 4}, {"callers", callers, 2}};
    P.real_components = {"src/PrePost/Import/ImportFromCSV.h, src/LinearAlgebra/Models/Vector.h (built from /repo, instrumented)", "libstdc++ file streams"};
    P.stub_components = {"file system (in-memory disk under fopen/read/write/lseek/fstat/fclose)", "operator new/delete (simulated heap)", "thread scheduling (baton scheduler)"};
    P.assumptions = {"the C locale is in force"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 15; P.thorough_seconds = 900;
    return P;
}
