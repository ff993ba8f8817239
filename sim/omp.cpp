// Simulated OpenMP runtime: the libgomp entry points GCC emits, on simulated threads. Team sizes,
// chunk hand-out and every interleaving are decided by the seeded scheduler.
#include "engine.h"
#include <map>
#include <climits>
#include <omp.h>

namespace sim {
struct WS {                 // a work-sharing construct instance
    bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int sched = 0; // 0 static 1 dynamic 2 guided
    std::map<int, long> sidx; std::map<int, bool> sdone;
    int leavers = 0; bool single_taken = false; void* copy = nullptr; bool copy_ready = false;
    unsigned sec_next = 0, sec_n = 0; long ord_cur = 0, ord_next = 0;
    unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1; bool up = true;
};
struct Task { void (*fn)(void*); char* p; int* kids; };
struct Team {
    int n; int arrived = 0; u64 gen = 0; std::map<int, WS> ws; int done = 0; Team* outer; int level;
    std::vector<Task*> tasks; int outstanding = 0;      // deferred tasks not started / not finished
};
static std::map<void*, int> g_locks;       // held by thread id + 1
extern u64 g_garbage_seed;
static void barrier();
static u64 g_task_ord = 0;
static int g_crit = 0, g_atom = 0;

static Th* get_worker(Th* me) {
    if (!me->pool) me->pool = new std::vector<Th*>();
    for (Th* w : *me->pool) if (!w->busy) return w;
    Th** slot = new Th*(nullptr);
    Th* w = new_thread([slot] {
        for (;;) {
            Th* s = g_cur;
            wait_until([s] { return s->job != nullptr; });
            std::function<void()>* j = s->job;
            (*j)();
            g_inlib = false;
            s->job = nullptr; s->busy = false;
        }
    });
    *slot = w;
    me->pool->push_back(w);
    return w;
}
static void run_region(std::function<void()> body, unsigned nt, std::function<void(Team*)> prep = nullptr) {
    bool lib = g_inlib;
    EngineGuard eg;
    Th* me = g_cur;
    int want = nt ? (int)nt : me->icv;
    if (me->level >= 1) want = 1;
    if (want > 64) want = 64;
    int n = team_size(want);
    Team team; team.n = n; team.outer = me->team; team.level = me->level + 1;
    if (prep) prep(&team);
    Team* savet = me->team; int saven = me->tnum, savew = me->wsidx;
    std::vector<std::function<void()> > jobs(n);
    for (int i = 1; i < n; i++) {
        Th* w = get_worker(me);
        w->busy = true; w->level = me->level + 1; w->icv = me->icv;
        Team* tp = &team; int idx = i;
        jobs[i] = [tp, idx, body, lib] {
            Th* s = g_cur; s->team = tp; s->tnum = idx; s->wsidx = 0; s->kids = new int(0);
            g_inlib = lib;
            body();
            g_inlib = false;
            barrier();
            s->team = nullptr; tp->done++;
        };
        w->job = &jobs[i];
    }
    int* savek = me->kids; me->kids = new int(0);
    me->team = &team; me->tnum = 0; me->wsidx = 0; me->level++;
    if (n > 1) yield_point();
    g_inlib = lib;
    body();
    g_inlib = false;
    Team* tp = &team;
    if (n > 1) barrier();
    me->kids = savek;
    if (n > 1) wait_until([tp, n] { return tp->done == n - 1; });
    me->team = savet; me->tnum = saven; me->wsidx = savew; me->level--;
}
static void run_task(Team* t, bool lib) {
    u64 i = mix(g_garbage_seed, ++g_task_ord) % t->tasks.size();
    Task* k = t->tasks[i]; t->tasks.erase(t->tasks.begin() + i);
    Th* me = g_cur; int* save = me->kids; me->kids = new int(0);
    g_inlib = lib; k->fn(k->p); g_inlib = false;
    me->kids = save; --*k->kids; t->outstanding--;
}
static void barrier() {
    bool lib = g_inlib;
    EngineGuard eg;
    Th* me = g_cur; Team* t = me ? me->team : nullptr;
    if (!t || t->n == 1) return;
    u64 g = t->gen; ++t->arrived;
    for (;;) {
        if (t->gen != g) return;
        if (!t->tasks.empty()) { run_task(t, lib); continue; }
        if (t->arrived == t->n && !t->outstanding) { t->arrived = 0; t->gen++; return; }
        wait_until([t, g] { return t->gen != g || !t->tasks.empty() || (t->arrived == t->n && !t->outstanding); });
    }
}
// run and wait for tasks until the counter (children of the current task, or all tasks) is zero
static void task_wait(int* k) {
    bool lib = g_inlib;
    EngineGuard eg;
    Th* me = g_cur; Team* t = me ? me->team : nullptr;
    if (!t || t->n == 1 || !k) return;
    while (*k) {
        if (!t->tasks.empty()) { run_task(t, lib); continue; }
        wait_until([t, k] { return *k == 0 || !t->tasks.empty(); });
    }
}
static std::map<int, std::map<int, WS> > g_orphan;
static WS& cur_ws() { Th* me = g_cur; if (me->team) return me->team->ws[me->wsidx]; return g_orphan[me->id][me->wsidx]; }
static int tn() { return g_cur->team ? g_cur->tnum : 0; }
static int nth() { return g_cur->team ? g_cur->team->n : 1; }

static bool ws_next(WS& w, long* a, long* b) {
    long span = w.end - w.next, dir = w.incr > 0 ? 1 : -1;
    if (w.sched == 0) {
        long total = dir > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / (-w.incr);
        if (total <= 0) return false;
        int t = tn(), n = nth();
        if (w.chunk <= 0) {
            if (w.sdone[t]) return false;
            w.sdone[t] = true;
            long q = total / n, r = total % n;
            long s = t < r ? t * (q + 1) : r * (q + 1) + (t - r) * q, c = t < r ? q + 1 : q;
            if (c <= 0) return false;
            *a = w.next + s * w.incr; *b = *a + c * w.incr; if (dir > 0 ? *b > w.end : *b < w.end) *b = w.end; return true;
        }
        long k = w.sidx[t]++;
        long s = (k * n + t) * w.chunk;
        if (s >= total) return false;
        long c = total - s < w.chunk ? total - s : w.chunk;
        *a = w.next + s * w.incr; *b = *a + c * w.incr; if (dir > 0 ? *b > w.end : *b < w.end) *b = w.end;
        return true;
    }
    (void)span;
    if (dir > 0 ? w.next >= w.end : w.next <= w.end) return false;
    long c = w.chunk > 0 ? w.chunk : 1;
    if (w.sched == 2) { long left = dir > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / (-w.incr); long g = left / nth(); if (g > c) c = g; }
    *a = w.next; long e = w.next + c * w.incr;
    if (dir > 0 ? e > w.end : e < w.end) e = w.end;
    *b = e; w.next = e;
    return true;
}
static void ws_init(WS& w, long s, long e, long incr, long chunk, int sched) { if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = incr; w.chunk = chunk; w.sched = sched; } }
static bool loop_start(long s, long e, long incr, long chunk, int sched, long* a, long* b) { sync_point(); EngineGuard eg; WS& w = cur_ws(); ws_init(w, s, e, incr, chunk, sched); return ws_next(w, a, b); }
static bool loop_next(long* a, long* b) { sync_point(); EngineGuard eg; return ws_next(cur_ws(), a, b); }
static bool uws_next(WS& w, unsigned long long* a, unsigned long long* b) {
    // dynamic hand-out for every unsigned schedule
    unsigned long long c = w.uchunk ? w.uchunk : 1;
    if (w.up) { if (w.unext >= w.uend) return false; *a = w.unext; unsigned long long left = (w.uend - w.unext + w.uincr - 1) / w.uincr; if (c > left) c = left; *b = w.unext + c * w.uincr; if (*b > w.uend) *b = w.uend; w.unext = *b; }
    else { if (w.unext <= w.uend) return false; unsigned long long st = 0ull - w.uincr; *a = w.unext; unsigned long long left = (w.unext - w.uend + st - 1) / st; if (c > left) c = left; *b = w.unext - c * st; if (*b < w.uend || *b > w.unext) *b = w.uend; w.unext = *b; }
    return true;
}
static bool uloop_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* a, unsigned long long* b) {
    sync_point(); EngineGuard eg; WS& w = cur_ws();
    if (!w.init) { w.init = true; w.unext = s; w.uend = e; w.uincr = incr; w.uchunk = chunk; w.up = up; }
    return uws_next(w, a, b);
}
static bool uloop_next(unsigned long long* a, unsigned long long* b) { sync_point(); EngineGuard eg; return uws_next(cur_ws(), a, b); }
static void leave_ws() { EngineGuard eg; g_cur->wsidx++; g_cur->ord_chunk = -1; }

static bool ord_take(WS& w, long* a, long* b) {     // ordered loops: chunks of one, handed out in order
    Th* me = g_cur;
    if (me->ord_chunk >= 0) { WS* p = &w; long c = me->ord_chunk; wait_until([p, c] { return p->ord_cur == c; }); w.ord_cur++; me->ord_chunk = -1; }
    long dir = w.incr > 0 ? 1 : -1;
    if (dir > 0 ? w.next >= w.end : w.next <= w.end) return false;
    *a = w.next; *b = w.next + w.incr; w.next = *b; me->ord_chunk = w.ord_next++;
    return true;
}
static bool ord_start(long s, long e, long incr, long* a, long* b) { sync_point(); EngineGuard eg; WS& w = cur_ws(); ws_init(w, s, e, incr, 1, 1); return ord_take(w, a, b); }
static bool ord_next(long* a, long* b) { sync_point(); EngineGuard eg; return ord_take(cur_ws(), a, b); }
static void lock_it(void* k) { sync_point(); EngineGuard eg; int me = g_cur->id + 1; wait_until([k] { return g_locks[k] == 0; }); g_locks[k] = me; }
static void unlock_it(void* k) { { EngineGuard eg; g_locks[k] = 0; } sync_point(); }
static int kind_of(long sched) { long s = sched & 0x3fffffff; s &= 7; return s == 2 ? 1 : s == 3 ? 2 : s == 1 ? 0 : 1; }
}  // namespace sim
using namespace sim;
typedef void (*fn_t)(void*);
typedef unsigned long long ull;
extern "C" {
void GOMP_parallel(fn_t fn, void* d, unsigned nt, unsigned) {
    if (!g_cur) { fn(d); return; }
    run_region([fn, d] { fn(d); }, nt);
}
unsigned GOMP_parallel_reductions(fn_t fn, void* d, unsigned nt, unsigned f) { GOMP_parallel(fn, d, nt, f); return 1; }
void GOMP_barrier() { sync_point(); barrier(); }
bool GOMP_barrier_cancel() { barrier(); return false; }
void GOMP_critical_start() { lock_it(&g_crit); }
void GOMP_critical_end() { unlock_it(&g_crit); }
void GOMP_critical_name_start(void** p) { lock_it(p); }
void GOMP_critical_name_end(void** p) { unlock_it(p); }
void GOMP_atomic_start() { lock_it(&g_atom); }
void GOMP_atomic_end() { unlock_it(&g_atom); }
bool GOMP_single_start() { sync_point(); EngineGuard eg; WS& w = cur_ws(); g_cur->wsidx++; if (w.single_taken) return false; w.single_taken = true; return true; }
void* GOMP_single_copy_start() {
    sync_point(); EngineGuard eg; WS* w = &cur_ws(); 
    if (!w->single_taken) { w->single_taken = true; return nullptr; }
    wait_until([w] { return w->copy_ready; }); g_cur->wsidx++; return w->copy;
}
void GOMP_single_copy_end(void* d) { EngineGuard eg; WS& w = cur_ws(); w.copy = d; w.copy_ready = true; g_cur->wsidx++; barrier(); }
void GOMP_scope_start(uintptr_t*) {}
void GOMP_ordered_start() { sync_point(); EngineGuard eg; WS* w = &cur_ws(); long c = g_cur->ord_chunk; if (c >= 0) wait_until([w, c] { return w->ord_cur == c; }); }
void GOMP_ordered_end() { sync_point(); }
#define LOOPS(NAME, K) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, K, a, b); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return uloop_start(up, s, e, i, c, a, b); } \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return uloop_next(a, b); } \
  void GOMP_parallel_loop_##NAME(fn_t fn, void* d, unsigned nt, long s, long e, long i, long c, unsigned) { run_region([fn, d] { fn(d); }, nt, [s, e, i, c](Team* t) { ws_init(t->ws[0], s, e, i, c, K); }); }
LOOPS(static, 0) LOOPS(dynamic, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_dynamic, 1) LOOPS(nonmonotonic_guided, 2)
#define RLOOPS(NAME, K) \
  bool GOMP_loop_##NAME##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, 1, K, a, b); } \
  bool GOMP_loop_##NAME##_next(long* a, long* b) { return loop_next(a, b); } \
  bool GOMP_loop_ull_##NAME##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return uloop_start(up, s, e, i, 1, a, b); } \
  bool GOMP_loop_ull_##NAME##_next(ull* a, ull* b) { return uloop_next(a, b); } \
  void GOMP_parallel_loop_##NAME(fn_t fn, void* d, unsigned nt, long s, long e, long i, unsigned) { run_region([fn, d] { fn(d); }, nt, [s, e, i](Team* t) { ws_init(t->ws[0], s, e, i, 1, K); }); }
RLOOPS(runtime, 1) RLOOPS(nonmonotonic_runtime, 1) RLOOPS(maybe_nonmonotonic_runtime, 1)
#define OLOOPS(NAME) \
  bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long, long* a, long* b) { return ord_start(s, e, i, a, b); } \
  bool GOMP_loop_ordered_##NAME##_next(long* a, long* b) { return ord_next(a, b); }
OLOOPS(static) OLOOPS(dynamic) OLOOPS(guided)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* a, long* b) { return ord_start(s, e, i, a, b); }
bool GOMP_loop_ordered_runtime_next(long* a, long* b) { return ord_next(a, b); }
bool GOMP_loop_start(long s, long e, long i, long sched, long c, long* a, long* b, uintptr_t*, void** mem) { if (mem) *mem = nullptr; if (!a) return true; return loop_start(s, e, i, c, kind_of(sched), a, b); }
bool GOMP_loop_ordered_start(long s, long e, long i, long, long, long* a, long* b, uintptr_t*, void** mem) { if (mem) *mem = nullptr; return ord_start(s, e, i, a, b); }
void GOMP_loop_end() { leave_ws(); GOMP_barrier(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_loop_end_nowait() { leave_ws(); }
unsigned GOMP_sections_start(unsigned n) { sync_point(); EngineGuard eg; WS& w = cur_ws(); if (!w.init) { w.init = true; w.sec_n = n; } return w.sec_next < w.sec_n ? ++w.sec_next : 0; }
unsigned GOMP_sections_next() { sync_point(); EngineGuard eg; WS& w = cur_ws(); return w.sec_next < w.sec_n ? ++w.sec_next : 0; }
void GOMP_parallel_sections(fn_t fn, void* d, unsigned nt, unsigned n, unsigned) { run_region([fn, d] { fn(d); }, nt, [n](Team* t) { t->ws[0].init = true; t->ws[0].sec_n = n; }); }
void GOMP_sections_end() { leave_ws(); GOMP_barrier(); }
bool GOMP_sections_end_cancel() { GOMP_sections_end(); return false; }
void GOMP_sections_end_nowait() { leave_ws(); }
// A task runs at once or is deferred to whichever thread next waits at a barrier, taskwait or
// taskgroup end; which of the two is decided per task from the run's seed.
void GOMP_task(fn_t fn, void* data, void (*cpy)(void*, void*), long size, long align, bool iff, unsigned flags, void** dep, int, void*) {
    sync_point();
    Th* me = g_cur; Team* t = me ? me->team : nullptr;
    bool defer = t && t->n > 1 && iff && !(flags & 2) && !g_quiet && !dep;
    if (dep && t) task_wait(me->kids);
    { EngineGuard eg; if (defer && mix(g_garbage_seed, mix(++g_task_ord, 0x7a5c)) % 4 == 0) defer = false; }
    char* buf; { EngineGuard eg; buf = new char[size + align + 64]; }
    char* p = (char*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
    if (cpy) cpy(p, data); else memcpy(p, data, size);
    if (!defer) { int* save = nullptr; if (me) { EngineGuard eg; save = me->kids; me->kids = new int(0); } fn(p); if (me) me->kids = save; EngineGuard eg; return; }
    { EngineGuard eg; Task* k = new Task(); k->fn = fn; k->p = p; k->kids = me->kids; ++*k->kids; t->outstanding++; t->tasks.push_back(k); }
    sync_point();
}
void GOMP_taskloop(fn_t fn, void* data, void (*cpy)(void*, void*), long size, long align, unsigned, unsigned long, int, long start, long end, long step) {
    for (long i = start; step > 0 ? i < end : i > end; i += step) {
        char* buf; { EngineGuard eg; buf = new char[size + align + 64]; }
        char* p = (char*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1));
        if (cpy) cpy(p, data); else memcpy(p, data, size);
        ((long*)p)[0] = i; ((long*)p)[1] = i + step;
        Th* me = g_cur; Team* t = me ? me->team : nullptr; bool defer = t && t->n > 1 && !g_quiet;
        if (!defer) { fn(p); continue; }
        { EngineGuard eg; Task* k = new Task(); k->fn = fn; k->p = p; k->kids = me->kids; ++*k->kids; t->outstanding++; t->tasks.push_back(k); ++g_task_ord; }
        sync_point();
    }
    if (g_cur) task_wait(g_cur->kids);
}
void GOMP_taskwait() { sync_point(); if (g_cur) task_wait(g_cur->kids); }
void GOMP_taskyield() { sync_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { sync_point(); if (g_cur && g_cur->team && g_cur->kids) task_wait(g_cur->kids); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num() noexcept { return g_cur ? tn() : 0; }
int omp_get_num_threads() noexcept { return g_cur ? nth() : 1; }
int omp_get_max_threads() noexcept { return g_cur ? g_cur->icv : 1; }
void omp_set_num_threads(int n) noexcept { if (g_cur && n > 0) g_cur->icv = n; }
int omp_get_num_procs() noexcept { return 8; }
int omp_in_parallel() noexcept { return g_cur && g_cur->team && g_cur->team->n > 1; }
void omp_set_dynamic(int) noexcept {}
int omp_get_dynamic() noexcept { return 1; }
void omp_set_nested(int) noexcept {}
int omp_get_nested() noexcept { return 0; }
int omp_get_level() noexcept { return g_cur ? g_cur->level : 0; }
int omp_get_active_level() noexcept { return omp_in_parallel(); }
int omp_get_thread_limit() noexcept { return 64; }
int omp_get_max_active_levels() noexcept { return 1; }
void omp_set_max_active_levels(int) noexcept {}
int omp_get_ancestor_thread_num(int l) noexcept { return l == 0 ? 0 : omp_get_thread_num(); }
int omp_get_team_size(int l) noexcept { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_num_teams() noexcept { return 1; }
int omp_get_team_num() noexcept { return 0; }
int omp_get_cancellation() noexcept { return 0; }
int omp_in_final() noexcept { return 0; }
void omp_set_schedule(omp_sched_t, int) noexcept {}
void omp_get_schedule(omp_sched_t* k, int* c) noexcept { *k = omp_sched_dynamic; *c = 1; }
double omp_get_wtime() noexcept { return g_steps * 5e-8; }
double omp_get_wtick() noexcept { return 5e-8; }
void omp_init_lock(omp_lock_t* l) noexcept { EngineGuard eg; g_locks[l] = 0; }
void omp_destroy_lock(omp_lock_t*) noexcept {}
void omp_set_lock(omp_lock_t* l) noexcept { lock_it(l); }
void omp_unset_lock(omp_lock_t* l) noexcept { unlock_it(l); }
int omp_test_lock(omp_lock_t* l) noexcept { sync_point(); EngineGuard eg; if (g_locks[l]) return 0; g_locks[l] = g_cur->id + 1; return 1; }
void omp_init_nest_lock(omp_nest_lock_t* l) noexcept { EngineGuard eg; g_locks[l] = 0; }
void omp_destroy_nest_lock(omp_nest_lock_t*) noexcept {}
static std::map<void*, int> g_nest;
void omp_set_nest_lock(omp_nest_lock_t* l) noexcept { { EngineGuard eg; if (g_locks[l] == g_cur->id + 1) { g_nest[l]++; return; } } lock_it(l); EngineGuard eg; g_nest[l] = 1; }
void omp_unset_nest_lock(omp_nest_lock_t* l) noexcept { { EngineGuard eg; if (--g_nest[l] > 0) return; } unlock_it(l); }
int omp_test_nest_lock(omp_nest_lock_t* l) noexcept { EngineGuard eg; if (g_locks[l] == g_cur->id + 1) return ++g_nest[l]; if (g_locks[l]) return 0; g_locks[l] = g_cur->id + 1; g_nest[l] = 1; return 1; }
}
