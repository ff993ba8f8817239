// Internal interface between the engine's parts (scheduler, heap, disk, OpenMP runtime, runner).
#pragma once
#include "sim.h"
#include <pthread.h>

namespace sim {

enum EvKind { EV_PREEMPT = 1, EV_FORCED = 2, EV_FAULT = 3 };
enum FaultKind { F_ALLOC = 1, F_TEAM, F_EINTR_R, F_SHORT_R, F_EIO_R, F_EISDIR_R, F_EOF_R, F_OPEN, F_EINTR_W, F_SHORT_W, F_EIO_W, F_ENOSPC_W, F_CLOSE, F_CRASH, F_STALL, F_MAX };
extern const char* fault_name[F_MAX];

struct Ev { uint32_t kind, a; u64 at; u64 param; };      // preempt: at=step a=tid; forced: at=ordinal a=tid; fault: a=kind at=ordinal param

struct Counter { char name[56]; u64 n; };

static const int MAXEV = 1 << 18;
static const int MAXOUT = 1 << 20;
struct Shared {                 // one per worker, MAP_SHARED
    volatile int status;        // 0 running, 1 ok, 2 violation, 3 harness error
    char cls[64];
    char msg[2048];
    char notes[4096];
    char scenario[64];
    u64 hash, schash, whash;
    u64 steps, switches, forced, regions, conflicts, faults;
    u64 fault_count[F_MAX];
    int nev; bool ev_overflow; int marked;
    Ev ev[MAXEV];
    // accumulated over the worker's runs
    Counter ctr[256]; int nctr;
    // solo output area
    volatile int solo_status;
    u64 solo_steps; int maxop; u64 solo_n; u64 solo_v[MAXOUT];
};
extern Shared* g_sh;

struct Team;
struct Th {
    int id; int state;              // 0 runnable, 1 waiting, 2 finished
    std::function<bool()>* pred;
    int baton;
    pthread_t pt;
    std::function<void()> fn;
    bool inlib;
    bool spawned;                   // caller thread made by the harness
    Team* team; int tnum; int wsidx; int level; int icv;
    std::vector<Th*>* pool;
    bool busy;
    std::function<void()>* job;
    long long prio;
    char* out; size_t outn, outcap;
    void* posix_ret;
    int* kids;                      // children of the task it is executing that are not finished
    bool posix_done; u64 deadline;   // deadline: step at which a timed wait gives up, 0 none
    long ord_chunk;
    std::vector<std::pair<void (*)(void*), void*> > dtors;
};

extern bool g_on;                   // a run is in progress
extern bool g_inlib;
extern Th* g_cur;
extern bool g_multi;
extern u64 g_steps;
extern bool g_replay;
extern bool g_quiet;                // solo: no preemption/faults
extern Rng g_srng, g_frng;

struct EngineGuard { bool o; EngineGuard() : o(g_inlib) { g_inlib = false; } ~EngineGuard() { g_inlib = o; } };

void wait_until(std::function<bool()> pred);
Th* new_thread(std::function<void()> fn);
void preempt_now();                 // consider a preemption (gen mode: random)
void sync_point();                  // library-scope synchronisation point
int team_size(int want);
// fault decision: in generation mode `want` decides and it is recorded; in replay the trace decides.
bool fault_event(int kind, u64 ordinal, bool want, u64& param);
bool force_fault(int kind, u64 ordinal, bool cond);     // fault implied by the workload itself, in generation and replay alike
bool replay_fault(int kind, u64 ordinal, u64& param);
void heap_init();
void heap_run_start();
void meta_clear(uintptr_t a, size_t n);
void heap_check(uintptr_t a, size_t n, bool w);
void reset_run_state();
void run_scenario_main(Run& r, ScenarioFn fn);
void capture_cout();

// memory regions with per-granule accessor metadata
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SZ = 4ull << 30;
static const uintptr_t STK = 0x210000000000ull;
static const size_t STK_ONE = 4ull << 20;
static const size_t STK_N = 96;
extern unsigned char* g_shadow;     // 1 byte per 8 bytes of arena: number of addressable bytes (0..8), 0xFD freed
}  // namespace sim
