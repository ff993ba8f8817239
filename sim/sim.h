// Deterministic simulator: public interface used by the harnesses.
// One run = one forked process = one seed. Everything the run decides (schedule, faults, heap
// layout, heap garbage, clock, entropy) comes from the seed or, in replay, from a recorded trace.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <utility>

namespace sim {
typedef uint64_t u64;
typedef int64_t i64;

struct Rng {
    u64 s, n, at, alt;          // draws so far; draw number `at` gives `alt` instead (a workload that differs in one draw)
    explicit Rng(u64 seed = 1) : s(seed + 0xD1B54A32D192ED03ull), n(0), at(~0ull), alt(0) { s = next() ^ (seed << 7); next(); n = 0; }
    void change(u64 draw, u64 value) { at = draw; alt = value; }
    u64 next() {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        if (n++ == at) return alt;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }   // inclusive
    double uniform() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * uniform(); }
    bool chance(double p) { return uniform() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
inline u64 mix(u64 a, u64 b) {
    u64 z = a * 0x9E3779B97F4A7C15ull + (b ^ (b >> 29)) * 0xBF58476D1CE4E5B9ull + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ------------------------------------------------------------------ outputs of simulated calls
// A digest of everything a call let its caller see, kept value by value (bit patterns).
struct Out {
    std::vector<u64> v;
    void raw(u64 x) { v.push_back(x); }
    void i(long x) { v.push_back((u64)x); }
    void b(bool x) { v.push_back(x ? 1 : 0); }
    void d(double x) { u64 u; std::memcpy(&u, &x, 8); if (x != x) u = 0x7ff8000000000000ull; v.push_back(u); }
    void s(const std::string& x) { v.push_back(x.size()); u64 h = 1469598103934665603ull; for (unsigned char c : x) { h ^= c; h *= 1099511628211ull; } v.push_back(h); }
    bool operator==(const Out& o) const { return v == o.v; }
    bool operator!=(const Out& o) const { return v != o.v; }
};
std::string diff(const Out& want, const Out& got);     // first difference, printable

// ------------------------------------------------------------------ run control
struct SchedCfg {               // how the PRNG schedules this run (generation only, never in replay)
    int mean_gap;               // mean accesses between preemptions, 0 = never
    double p_race;              // chance to preempt at a conflicting access
    int pct;                    // 1: priority scheduling with random change points
    int stalled;                // id of a thread scheduled only rarely, -1 none
    double p_shortage;          // chance that a parallel region gets fewer threads than asked
};
void default_sched(Rng& r);                     // swarm: draw a SchedCfg
SchedCfg& sched();

void set_threads(int n);                        // nominal OpenMP thread count for the calling sim thread
int  spawn(std::function<void()> fn);           // new caller thread, runnable at once
void join(int tid);
void join_all();                                // all spawned caller threads
int  self();
void yield_point();                             // explicit scheduling point (harness)

// Library scope: inside it every instrumented access is a step and a possible preemption, and
// allocations/I-O may fail. Outside it the harness runs undisturbed.
struct Lib { bool old; Lib(); ~Lib(); };
struct NoLib { bool old; NoLib(); ~NoLib(); };

// a listed open finding (known_findings.txt) is counted and printed, an unlisted one is a violation of class <key>
void known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void probe(const char* name, u64 n = 1);        // "this condition was reached" counter
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // text for the replay file/sample
void mark();                                    // this run exercised something beyond the plain path (counts as non-trivial)
void stack_garbage(u64 seed);                   // fill the unused stack below the caller with seeded garbage
void mix_hash(u64 x);                           // fold an observation into the run's event hash
bool enabled(int op);                           // op not removed by the minimiser
u64  steps();
void set_budget(u64 steps_from_now);            // bounded-liveness budget for the following library code

// Execute fn alone in a pristine copy of this process (no preemption, no faults, `team` OpenMP
// threads) and return what it recorded.
Out solo(std::function<void(Out&)> fn, int team = 1);
void solo_detach();                              // (used by solo) no faults, no preemption from here on

// ------------------------------------------------------------------ allocator seam
u64  alloc_count();                             // allocations attempted in library scope so far
void alloc_fail_at(u64 ordinal, u64 n = 1);     // absolute ordinals [ordinal, ordinal+n) fail (trace recorded)
void alloc_fail_clear();
void alloc_fail_random(double p);               // random failures, recorded in the trace
u64  alloc_failures();                          // how many injected
u64  live_blocks();
struct LeakMark { u64 live, seq; };
LeakMark leak_mark();
i64  leaked(LeakMark& m);                       // blocks of library code allocated since the mark, alive and unreachable
u64  live_bytes();
int  heap_mode();
void heap_policy(u64 seed);                     // reseed garbage/layout policy

// ------------------------------------------------------------------ I/O seam (paths under /sim/)
struct IoCfg {
    double p_eintr, p_short;                    // transparent: EINTR, short read/write
    int max_chunk;                              // 0 = unlimited: at most this many bytes per transfer
    double p_err;                               // EIO on a transfer
    double p_open;                              // open fails (ENOENT/EACCES/EMFILE/EISDIR at read)
    i64 capacity;                               // disk capacity in bytes, -1 unlimited: ENOSPC afterwards
    double p_close;                             // close reports an error
    i64 err_at;                                 // read/write fault exactly at this byte offset of the file, -1 none
    int err_kind;                               // 0 = EIO, 1 = EISDIR (read) / ENOSPC (write), 2 = spurious EOF(read)
    bool err_sticky;                            // error persists
    i64 crash_at;                               // power loss: bytes written beyond this total never reach the disk (the dying process does not notice), -1 none
    IoCfg() : p_eintr(0), p_short(0), max_chunk(0), p_err(0), p_open(0), capacity(-1), p_close(0), err_at(-1), err_kind(0), err_sticky(true), crash_at(-1) {}
};
IoCfg& io();
void disk_clear();
void disk_put(const std::string& path, const std::string& bytes);
bool disk_exists(const std::string& path);
std::string disk_get(const std::string& path);
u64  io_faults();                               // non-transparent faults fired so far
u64  io_transparent();                          // EINTR/short transfers fired so far
u64  io_ops();                                  // read/write calls seen
u64  io_written();                              // bytes written so far in this run (of every file)
bool io_read_to_end(const std::string& path);   // some reader of this file has been given its last byte
std::string cout_text(int tid);                 // what this sim thread printed on std::cout
void cout_clear(int tid);
void cout_put(int tid, const std::string& s);    // replace it (a nested call has its own text)

// environment nondeterminism (clock, entropy) the library might read
void env_seed(u64 s);

// ------------------------------------------------------------------ scenarios
struct Run {
    u64 seed;           // run seed
    int index;
    bool quick;
    Rng rng;            // workload stream
    Run() : seed(0), index(0), quick(true), rng(1) {}
};
typedef void (*ScenarioFn)(Run&);
struct Scenario { const char* name; ScenarioFn fn; int weight; };
struct Property {
    const char* id;
    const char* level;
    const char* rule;
    std::vector<Scenario> scenarios;
    std::vector<std::string> real_components, stub_components, assumptions;
    int quick_runs, thorough_runs;
    double quick_seconds, thorough_seconds;
};
Property& property();           // defined by the harness
}  // namespace sim
