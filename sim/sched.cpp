// Scheduler: simulated threads are real pthreads, exactly one of which holds the baton. Compiler
// instrumentation (-fsanitize=thread callbacks, linked against this file instead of libtsan) makes
// every memory access of library code a step and a possible preemption point.
#include "engine.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dlfcn.h>
#include <iostream>
#include <streambuf>
#include <algorithm>
#include <cerrno>
#include <map>
#include <sched.h>
#include <time.h>

extern "C" char __data_start;
extern "C" char _end;

namespace sim {
const char* fault_name[F_MAX] = {"none", "alloc_failure", "team_shortage", "eintr_on_read", "short_read", "eio_on_read", "eisdir_on_read",
    "premature_eof", "open_failure", "eintr_on_write", "short_write", "eio_on_write", "enospc_on_write", "error_on_close", "crash_torn_file", "stalled_thread"};

Shared* g_sh = nullptr;
bool g_on = false, g_inlib = false, g_multi = false, g_replay = false, g_quiet = false;
Th* g_cur = nullptr;
u64 g_steps = 0, g_budget = ~0ull, g_next = ~0ull;
Rng g_srng(1), g_frng(2);
static SchedCfg g_sc;
std::vector<Th*> g_th;
static u64 g_forced_ord = 0;
static long long g_minprio = 0;
static u64 g_hash = 0, g_schash = 0;
std::vector<Ev> g_trace;                 // replay trace
static std::vector<Ev> g_tr_pre, g_tr_forced, g_tr_fault;
static size_t g_pre_i = 0, g_forced_i = 0;
std::vector<int> g_skip;
static uint16_t *g_meta_arena, *g_meta_stk, *g_meta_glob;
static uintptr_t g_glob0; static size_t g_globn;

SchedCfg& sched() { return g_sc; }
u64 steps() { return g_steps; }
void set_budget(u64 n) { g_budget = g_steps + n; }
int self() { return g_cur ? g_cur->id : -1; }
bool enabled(int op) { if (g_sh && op > g_sh->maxop) g_sh->maxop = op; return std::find(g_skip.begin(), g_skip.end(), op) == g_skip.end(); }

static void fut_wait(int* p, int v) { syscall(SYS_futex, p, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }
static void fut_wake(int* p) { syscall(SYS_futex, p, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, nullptr, nullptr, 0); }

void mix_hash(u64 x) { g_hash = mix(g_hash, x); }

static void push_ev(uint32_t kind, uint32_t a, u64 at, u64 param) {
    g_hash = mix(g_hash, mix(((u64)kind << 32) | a, mix(at, param)));
    if (kind != EV_FAULT) g_schash = mix(g_schash, mix(((u64)kind << 32) | a, at));
    if (g_sh->nev < MAXEV) { Ev& e = g_sh->ev[g_sh->nev++]; e.kind = kind; e.a = a; e.at = at; e.param = param; }
    else g_sh->ev_overflow = true;
}

[[noreturn]] void finish(int status) {
    g_hash = mix(g_hash, g_steps);
    g_sh->hash = g_hash; g_sh->schash = g_schash; g_sh->steps = g_steps;
    g_sh->status = status;
    _exit(status == 1 ? 0 : 9);
}

void fail(const char* cls, const char* fmt, ...) {
    g_inlib = false;
    if (g_quiet) {          // inside a solo() grandchild: hand the message to the parent
        va_list ap; va_start(ap, fmt);
        snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
        vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap);
        g_sh->solo_status = 2; _exit(9);
    }
    va_list ap; va_start(ap, fmt);
    snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls);
    vsnprintf(g_sh->msg, sizeof g_sh->msg, fmt, ap); va_end(ap);
    u64 h = 0; for (const char* p = cls; *p; ++p) h = h * 131 + (unsigned char)*p;
    mix_hash(h);
    finish(2);
}
void probe(const char* name, u64 n) {
    for (int i = 0; i < g_sh->nctr; i++) if (!strcmp(g_sh->ctr[i].name, name)) { g_sh->ctr[i].n += n; return; }
    if (g_sh->nctr < 256) { Counter& c = g_sh->ctr[g_sh->nctr++]; snprintf(c.name, sizeof c.name, "%s", name); c.n = n; }
}
void note(const char* fmt, ...) {
    size_t l = strlen(g_sh->notes);
    if (l + 300 > sizeof g_sh->notes) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_sh->notes + l, sizeof g_sh->notes - l - 2, fmt, ap); va_end(ap);
    u64 h = 7; for (const char* p = g_sh->notes + l; *p; ++p) h = h * 131 + (unsigned char)*p;
    g_sh->whash = mix(g_sh->whash, h);
    strcat(g_sh->notes, ";");
}

// ------------------------------------------------------------------ choosing who runs
static bool runnable(Th* t) { return t->state == 0 || (t->state == 1 && ((*t->pred)() || (t->deadline && g_steps >= t->deadline))); }

static u64 geometric(int mean) {
    double u = g_srng.uniform();
    u64 n = 1 + (u64)(-__builtin_log(1 - u * 0.999999) * mean);
    return n;
}
static u64 g_solo_steps = 0, g_race_n = 0; static int g_burst = 0;
// Gaps between preemptions. Long workloads get a few bursts of closely spaced preemptions (up to
// about 1500 in total) at random places instead of an even, unaffordable rain of them.
static void arm() {
    if (g_replay) return;
    if (g_sc.mean_gap <= 0 || g_quiet) { g_next = ~0ull; return; }
    u64 est = g_solo_steps ? g_solo_steps : 20000;
    double want = (double)est / g_sc.mean_gap;
    if (want <= 1500) { g_next = g_steps + geometric(g_sc.mean_gap); return; }
    if (g_burst > 0) { g_burst--; g_next = g_steps + geometric(g_sc.mean_gap); return; }
    g_burst = (int)g_srng.below(120);                        // mean 60 per burst, about 25 bursts
    g_next = g_steps + geometric((int)(est / 25 + 1));
}
void meta_clear(uintptr_t a, size_t n) { if (g_multi && n) memset(&g_meta_arena[(a - ARENA) >> 3], 0, (n + 7) / 8 * 2); }
static void arm_replay() { g_next = g_pre_i < g_tr_pre.size() ? g_tr_pre[g_pre_i].at : ~0ull; }

static void switch_to(Th* n) {
    Th* me = g_cur;
    if (n == me) { me->state = 0; return; }
    me->inlib = g_inlib;
    n->state = 0;
    g_cur = n; g_inlib = n->inlib;
    g_sh->switches++;
    __atomic_store_n(&n->baton, 1, __ATOMIC_SEQ_CST);
    fut_wake(&n->baton);
    while (__atomic_load_n(&me->baton, __ATOMIC_SEQ_CST) == 0) fut_wait(&me->baton, 0);
    me->baton = 0;
}
static void update_multi() {
    int n = 0; for (Th* t : g_th) if (t->state != 2 && !(t->state == 1 && !t->busy && t->job == nullptr && !t->spawned && t->id != 0)) n++;
    g_multi = n > 1;
}

// the running thread may go on but we consider running someone else
void preempt_now() {
    EngineGuard eg;
    Th* cand[STK_N]; int n = 0;
    for (Th* t : g_th) if (t != g_cur && runnable(t)) cand[n++] = t;
    if (g_replay) {
        while (g_pre_i < g_tr_pre.size() && g_tr_pre[g_pre_i].at <= g_steps) {
            Ev e = g_tr_pre[g_pre_i++];
            if (e.at != g_steps) continue;
            for (int i = 0; i < n; i++) if (cand[i]->id == (int)e.a) { arm_replay(); push_ev(EV_PREEMPT, e.a, g_steps, 0); switch_to(cand[i]); return; }
        }
        arm_replay();
        return;
    }
    arm();
    if (!n) return;
    Th* c;
    if (g_sc.pct) {
        g_cur->prio = --g_minprio;
        c = cand[0]; for (int i = 1; i < n; i++) if (cand[i]->prio > c->prio) c = cand[i];
    } else {
        c = cand[g_srng.below(n)];
        if (c->id == g_sc.stalled && !g_srng.chance(0.02)) { if (n == 1) return; do c = cand[g_srng.below(n)]; while (c->id == g_sc.stalled); g_sh->fault_count[F_STALL]++; }
    }
    push_ev(EV_PREEMPT, c->id, g_steps, 0);
    switch_to(c);
}
// the running thread cannot go on
static Th* pick_forced() {
    Th* cand[STK_N]; int n = 0;
    for (Th* t : g_th) if (runnable(t)) cand[n++] = t;
    if (!n) {               // everybody waits: if somebody waits for a time, it comes now
        u64 first = 0; for (Th* t : g_th) if (t->state == 1 && t->deadline && (!first || t->deadline < first)) first = t->deadline;
        if (first) { u64 jump = first > g_steps ? first - g_steps : 0; g_budget += jump; g_steps += jump; for (Th* t : g_th) if (runnable(t)) cand[n++] = t; }
    }
    if (!n) fail("deadlock", "no simulated thread can make progress at step %llu", (unsigned long long)g_steps);
    u64 ord = g_forced_ord++;
    g_sh->forced++;
    Th* c = cand[0];
    if (g_replay) {
        while (g_forced_i < g_tr_forced.size() && g_tr_forced[g_forced_i].at < ord) g_forced_i++;
        if (g_forced_i < g_tr_forced.size() && g_tr_forced[g_forced_i].at == ord)
            for (int i = 0; i < n; i++) if (cand[i]->id == (int)g_tr_forced[g_forced_i].a) c = cand[i];
    } else if (!g_quiet) {
        if (g_sc.pct) { for (int i = 1; i < n; i++) if (cand[i]->prio > c->prio) c = cand[i]; }
        else {
            c = cand[g_srng.below(n)];
            if (c->id == g_sc.stalled && n > 1 && !g_srng.chance(0.02)) { do c = cand[g_srng.below(n)]; while (c->id == g_sc.stalled); g_sh->fault_count[F_STALL]++; }
        }
    }
    if (c != cand[0]) push_ev(EV_FORCED, c->id, ord, 0);
    return c;
}
void wait_until(std::function<bool()> pred) {
    EngineGuard eg;
    if (pred()) return;
    Th* me = g_cur;
    me->pred = &pred; me->state = 1;
    update_multi();
    Th* c = pick_forced();
    switch_to(c);
    me->state = 0; me->pred = nullptr;
    update_multi();
}
// false: the time came first
static bool wait_deadline(std::function<bool()> pred, u64 deadline) {
    EngineGuard eg;
    if (pred()) return true;
    g_cur->deadline = deadline ? deadline : 1;
    wait_until(pred);
    g_cur->deadline = 0;
    return pred();
}
void sync_point() { if (g_cur && g_multi && !g_quiet) { g_steps++; if (g_steps >= g_next) preempt_now(); } }
void yield_point() {
    if (!g_cur || g_quiet) return;
    g_steps++;
    if (g_replay) { if (g_steps >= g_next) preempt_now(); return; }
    if (g_srng.chance(0.5)) preempt_now();
}

static char* g_stk = nullptr;
static void* tramp(void* p) {
    Th* t = (Th*)p;
    while (__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST) == 0) fut_wait(&t->baton, 0);
    t->baton = 0;
    t->fn();
    g_inlib = false;
    while (!t->dtors.empty()) { std::pair<void (*)(void*), void*> d = t->dtors.back(); t->dtors.pop_back(); d.first(d.second); }       // thread_local objects go while this thread still holds the baton
    t->state = 2;
    update_multi();
    if (t->id == 0) finish(1);
    Th* n = pick_forced();
    n->state = 0; g_cur = n; g_inlib = n->inlib;
    g_sh->switches++;
    __atomic_store_n(&n->baton, 1, __ATOMIC_SEQ_CST);
    fut_wake(&n->baton);
    return nullptr;
}
void env_seed(u64 s);
extern u64 g_garbage_seed; extern int g_garbage_mode;
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
Th* new_thread(std::function<void()> fn) {
    EngineGuard eg;
    if (g_th.size() >= STK_N) fail("too-many-threads", "more than %d simulated threads", (int)STK_N);
    Th* t = new Th();
    t->id = g_th.size(); t->fn = fn; t->state = 0; t->pred = nullptr; t->baton = 0; t->inlib = false; t->spawned = false; t->team = nullptr;
    t->tnum = 0; t->wsidx = 0; t->level = 0; t->icv = 1; t->pool = nullptr; t->busy = false; t->job = nullptr; t->out = nullptr; t->outn = t->outcap = 0;
    t->deadline = 0; t->kids = nullptr; t->posix_done = false; t->posix_ret = nullptr; t->ord_chunk = -1;
    t->prio = (long long)(g_srng.next() >> 2);
    g_th.push_back(t);
    if (!g_stk) {
        g_stk = (char*)mmap((void*)STK, STK_ONE * STK_N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (g_stk != (char*)STK) { fprintf(stderr, "sim: cannot map stacks\n"); _exit(77); }
    }
    char* base = g_stk + STK_ONE * t->id;
    // fill the part of the stack a call is likely to use with garbage, so uninitialised locals show
    if (g_garbage_mode) {
        Rng r(mix(g_garbage_seed, 77 + t->id));
        u64* q = (u64*)(base + STK_ONE - 64 * 1024);
        u64 pat = g_garbage_mode == 1 ? ~0ull : 0;
        for (size_t i = 0; i < 63 * 1024 / 8; i++) q[i] = g_garbage_mode >= 2 ? r.next() : pat;
    }
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, base, STK_ONE);
    if (!real_create) real_create = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (real_create(&t->pt, &at, tramp, t)) { fprintf(stderr, "sim: pthread_create failed\n"); _exit(77); }
    update_multi();
    return t;
}
int spawn(std::function<void()> fn) {
    EngineGuard eg;
    Th* t = new_thread(fn);
    t->spawned = true; t->icv = g_cur ? g_cur->icv : 1;
    arm();
    return t->id;
}
void join(int tid) { Th* t = g_th[tid]; wait_until([t] { return t->state == 2; }); }
void join_all() { for (size_t i = 0; i < g_th.size(); i++) if (g_th[i]->spawned) join(i); }
void set_threads(int n) { if (g_cur) g_cur->icv = n; }

Lib::Lib() : old(g_inlib) { g_inlib = g_on; }
Lib::~Lib() { g_inlib = old; }
NoLib::NoLib() : old(g_inlib) { g_inlib = false; }
NoLib::~NoLib() { g_inlib = old; }

void default_sched(Rng& r) {
    static const int gaps[] = {2, 4, 8, 20, 50, 150, 500, 3000};
    g_sc.mean_gap = gaps[r.below(8)];
    static const double pr[] = {0, 0, 0.05, 0.3, 0.6};
    g_sc.p_race = pr[r.below(5)];
    g_sc.pct = r.chance(0.3);
    g_sc.stalled = r.chance(0.2) ? (int)r.below(5) : -1;
    g_sc.p_shortage = r.chance(0.4) ? 0.3 : 0.0;
    arm();
    if (g_replay) arm_replay();
}

// ------------------------------------------------------------------ faults through one gate
bool replay_fault(int kind, u64 ordinal, u64& param) {
    for (const Ev& e : g_tr_fault) if ((int)e.a == kind && e.at == ordinal) { param = e.param; return true; }
    return false;
}
bool fault_event(int kind, u64 ordinal, bool want, u64& param) {
    bool f;
    if (g_quiet) return false;
    if (g_replay) f = replay_fault(kind, ordinal, param); else f = want;
    if (f) { EngineGuard eg; push_ev(EV_FAULT, kind, ordinal, param); g_sh->fault_count[kind]++; g_sh->faults++; }
    return f;
}
bool force_fault(int kind, u64 ordinal, bool cond) {
    if (!cond || g_quiet) return false;
    EngineGuard eg; push_ev(EV_FAULT, 1000 + kind, ordinal, 0); g_sh->fault_count[kind]++; g_sh->faults++;
    return true;
}
int team_size(int want) {
    static u64 ord = 0; u64 o = ord++;
    g_sh->regions++;
    if (want <= 1) return 1;
    u64 param = 0;
    bool w = false;
    if (!g_replay && !g_quiet && g_sc.p_shortage > 0 && g_frng.chance(g_sc.p_shortage)) { w = true; param = 1 + g_frng.below(want); }
    if (fault_event(F_TEAM, o, w, param) && param >= 1 && param <= (u64)want) return (int)param;
    return want;
}

// ------------------------------------------------------------------ std::cout per simulated thread
struct CapBuf : std::streambuf {
    void put(const char* s, size_t n) {
        if (!g_cur) return;
        Th* t = g_cur;
        if (t->outn + n > (1u << 22)) return;
        if (t->outn + n + 1 > t->outcap) { t->outcap = (t->outn + n + 1) * 2 + 256; t->out = (char*)realloc(t->out, t->outcap); }
        memcpy(t->out + t->outn, s, n); t->outn += n; t->out[t->outn] = 0;
    }
    int overflow(int c) override { if (c != EOF) { char ch = (char)c; put(&ch, 1); } return 0; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { put(s, n); return n; }
    int sync() override { return 0; }
};
void capture_cout() { static CapBuf* b = new CapBuf(); std::cout.rdbuf(b); std::cerr.rdbuf(b); std::clog.rdbuf(b); }
std::string cout_text(int tid) { Th* t = g_th[tid]; return t->out ? std::string(t->out, t->outn) : std::string(); }
void cout_clear(int tid) { g_th[tid]->outn = 0; }
void cout_put(int tid, const std::string& s) { Th* t = g_th[tid]; t->outn = 0; if (s.size() + 1 > t->outcap) { t->outcap = s.size() * 2 + 256; t->out = (char*)realloc(t->out, t->outcap); } memcpy(t->out, s.data(), s.size()); t->outn = s.size(); t->out[t->outn] = 0; }

// ------------------------------------------------------------------ solo reference in a pristine process image
void solo_detach() { g_quiet = true; g_next = ~0ull; }
void alloc_reset_quiet();
Out solo(std::function<void(Out&)> fn, int team) {
    EngineGuard eg;
    g_sh->solo_status = 0; g_sh->solo_n = 0;
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "sim: fork failed\n"); g_sh->status = 3; _exit(78); }
    if (p == 0) {
        solo_detach();
        alloc_reset_quiet();
        g_cur->icv = team;
        u64 b0 = g_steps;
        g_inlib = false;
        Out o; fn(o);
        if (o.v.size() > (size_t)MAXOUT) { g_sh->solo_status = 3; _exit(0); }
        g_sh->solo_n = o.v.size();
        memcpy(g_sh->solo_v, o.v.data(), o.v.size() * 8);
        g_sh->solo_steps = g_steps - b0;
        g_sh->solo_status = 1; _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (g_sh->solo_status == 2) { std::string c = g_sh->cls, m = g_sh->msg; fail(c.c_str(), "(fault-free, alone) %s", m.c_str()); }
    if (g_sh->solo_status != 1) { fprintf(stderr, "sim: solo failed status %d wait %x\n", g_sh->solo_status, st); g_sh->status = 3; _exit(78); }
    g_solo_steps += g_sh->solo_steps;
    Out o; o.v.assign(g_sh->solo_v, g_sh->solo_v + g_sh->solo_n);
    return o;
}
std::string diff(const Out& w, const Out& g) {
    char buf[256];
    size_t n = std::min(w.v.size(), g.v.size());
    for (size_t i = 0; i < n; i++) if (w.v[i] != g.v[i]) {
        double a, b; memcpy(&a, &w.v[i], 8); memcpy(&b, &g.v[i], 8);
        snprintf(buf, sizeof buf, "value %zu of %zu: expected 0x%llx (%.17g), got 0x%llx (%.17g)", i, w.v.size(), (unsigned long long)w.v[i], a, (unsigned long long)g.v[i], b);
        return buf;
    }
    snprintf(buf, sizeof buf, "number of values: expected %zu, got %zu", w.v.size(), g.v.size());
    return buf;
}

// ------------------------------------------------------------------ access callbacks
static void hang() {
    g_inlib = false;
    fail("no-progress", "step budget exhausted: the call is not finished after %llu steps", (unsigned long long)g_steps);
}
static inline uint16_t* meta_of(uintptr_t a) {
    if (a - ARENA < ARENA_SZ) return &g_meta_arena[(a - ARENA) >> 3];
    if (a - STK < STK_ONE * STK_N) return &g_meta_stk[(a - STK) >> 3];
    if (a - g_glob0 < g_globn) return &g_meta_glob[(a - g_glob0) >> 3];
    return nullptr;
}
static inline void acc(uintptr_t a, size_t n, bool w) {
    if (__builtin_expect(!g_on, 0)) return;
    if (a - ARENA < ARENA_SZ) heap_check(a, n, w);
    if (!g_inlib) return;
    ++g_steps;
    if (__builtin_expect(g_steps >= g_budget, 0)) hang();
    if (__builtin_expect(g_multi, 0)) {
        uint16_t* m = meta_of(a);
        if (m) {
            unsigned last = *m & 0xff; bool lw = *m & 0x100;
            unsigned me = g_cur->id + 1;
            if (last && last != me && (w || lw)) {
                g_sh->conflicts++;
                if (!g_replay && !g_quiet && g_sc.p_race > 0 && g_srng.chance(g_sc.p_race * 400.0 / (400 + g_race_n))) { g_race_n++; preempt_now(); }
            }
            *m = (uint16_t)(me | ((w || (lw && last == me)) ? 0x100 : 0));
        }
        if (g_steps >= g_next) preempt_now();
    } else if (g_replay && g_steps >= g_next) { /* recorded point no longer concurrent */
        while (g_pre_i < g_tr_pre.size() && g_tr_pre[g_pre_i].at <= g_steps) g_pre_i++;
        arm_replay();
    }
}
void reset_run_state() {
    g_meta_arena = (uint16_t*)mmap(nullptr, ARENA_SZ / 8 * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_meta_stk = (uint16_t*)mmap(nullptr, STK_ONE * STK_N / 8 * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_glob0 = (uintptr_t)&__data_start & ~7ull; g_globn = (uintptr_t)&_end - g_glob0 + 8;
    g_meta_glob = (uint16_t*)mmap(nullptr, (g_globn / 8 + 2) * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_meta_arena == MAP_FAILED || g_meta_stk == MAP_FAILED || g_meta_glob == MAP_FAILED) { fprintf(stderr, "sim: mmap failed\n"); _exit(77); }
}
void load_trace() {
    for (const Ev& e : g_trace) {
        if (e.kind == EV_PREEMPT) g_tr_pre.push_back(e);
        else if (e.kind == EV_FORCED) g_tr_forced.push_back(e);
        else g_tr_fault.push_back(e);
    }
}
void mark() { g_sh->marked = 1; }
void __attribute__((noinline)) stack_garbage(u64 seed) {
    EngineGuard eg; volatile u64 a[12 * 1024]; Rng r(seed); u64 mode = seed % 4; for (size_t i = 0; i < sizeof a / sizeof a[0]; i++) { u64 x = r.next(); if (mode == 1) x = 0; else if (mode == 2) x = ~0ull; else if (mode == 3) { double d = 1.0 + (double)(x % 1000); memcpy(&x, &d, 8); } a[i] = x; }
}
void run_scenario_main(Run& r, ScenarioFn fn) {
    g_srng = Rng(mix(r.seed, 0x5c4ed)); g_frng = Rng(mix(r.seed, 0xfa017));
    r.rng = Rng(mix(r.seed, 0x3041d));
    g_sc.mean_gap = 0; g_sc.p_race = 0; g_sc.pct = 0; g_sc.stalled = -1; g_sc.p_shortage = 0;
    g_steps = 0; g_budget = 400000000ull;
    if (g_replay) { load_trace(); arm_replay(); } else g_next = ~0ull;
    heap_run_start();
    Run* rp = &r;
    Th* t = new_thread([rp, fn] { fn(*rp); });
    g_on = true;
    g_cur = t; g_inlib = false;
    __atomic_store_n(&t->baton, 1, __ATOMIC_SEQ_CST);
    fut_wake(&t->baton);
    for (;;) pause();
}
}  // namespace sim

using namespace sim;
#define A(p, n, w) acc((uintptr_t)(p), (n), (w))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read1(void* p) { A(p, 1, false); }
void __tsan_read2(void* p) { A(p, 2, false); }
void __tsan_read4(void* p) { A(p, 4, false); }
void __tsan_read8(void* p) { A(p, 8, false); }
void __tsan_read16(void* p) { A(p, 16, false); }
void __tsan_write1(void* p) { A(p, 1, true); }
void __tsan_write2(void* p) { A(p, 2, true); }
void __tsan_write4(void* p) { A(p, 4, true); }
void __tsan_write8(void* p) { A(p, 8, true); }
void __tsan_write16(void* p) { A(p, 16, true); }
void __tsan_unaligned_read2(void* p) { A(p, 2, false); }
void __tsan_unaligned_read4(void* p) { A(p, 4, false); }
void __tsan_unaligned_read8(void* p) { A(p, 8, false); }
void __tsan_unaligned_read16(void* p) { A(p, 16, false); }
void __tsan_unaligned_write2(void* p) { A(p, 2, true); }
void __tsan_unaligned_write4(void* p) { A(p, 4, true); }
void __tsan_unaligned_write8(void* p) { A(p, 8, true); }
void __tsan_unaligned_write16(void* p) { A(p, 16, true); }
#define VOL(n) void __tsan_volatile_read##n(void* p) { A(p, n, false); } void __tsan_volatile_write##n(void* p) { A(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void* p) { A(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { A(p, n, true); }
VOL(1) VOL(2) VOL(4) VOL(8) VOL(16)
void __tsan_read_range(void* p, unsigned long n) { A(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { A(p, n, true); }
void __tsan_vptr_read(void** p) { A(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { A(p, 8, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOM(N, T) \
  T __tsan_atomic##N##_load(const volatile T* a, int) { A(a, N / 8, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##N##_store(volatile T* a, T v, int) { A(a, N / 8, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { A(a, N / 8, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { A(a, N / 8, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { A(a, N / 8, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)

// block copies emitted by the compiler (linked with --wrap)
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n) { A(s, n, false); A(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n) { A(s, n, false); A(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n) A(d, n, true); return __real_memset(d, c, n); }
// C text functions: their buffers (and strtok's hidden state) may be shared, so each is an access to what it wrote
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __real_vsprintf(char*, const char*, va_list);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, size_t);
char* __real_strcat(char*, const char*);
char* __real_strncat(char*, const char*, size_t);
char* __real_strtok(char*, const char*);
static char g_strtok_state;
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list v) { int r = __real_vsnprintf(d, n, f, v); if (d && n && r >= 0) A(d, (size_t)r < n ? r + 1 : n, true); return r; }
int __wrap_vsprintf(char* d, const char* f, va_list v) { int r = __real_vsprintf(d, f, v); if (r >= 0) A(d, r + 1, true); return r; }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = __wrap_vsnprintf(d, n, f, v); va_end(v); return r; }
int __wrap_sprintf(char* d, const char* f, ...) { va_list v; va_start(v, f); int r = __wrap_vsprintf(d, f, v); va_end(v); return r; }
char* __wrap_strcpy(char* d, const char* s) { __real_strcpy(d, s); A(d, __builtin_strlen(d) + 1, true); return d; }
char* __wrap_strncpy(char* d, const char* s, size_t n) { __real_strncpy(d, s, n); if (n) A(d, n, true); return d; }
char* __wrap_strcat(char* d, const char* s) { __real_strcat(d, s); A(d, __builtin_strlen(d) + 1, true); return d; }
char* __wrap_strncat(char* d, const char* s, size_t n) { __real_strncat(d, s, n); A(d, __builtin_strlen(d) + 1, true); return d; }
char* __wrap_strtok(char* s, const char* sep) { char* r = __real_strtok(s, sep); A(&g_strtok_state, 1, true); return r; }

// ---- function-local statics: guard protocol under the simulator
int sim_guard_acquire(void* gg) __asm__("__cxa_guard_acquire");
void sim_guard_release(void* gg) __asm__("__cxa_guard_release");
void sim_guard_abort(void* gg) __asm__("__cxa_guard_abort");
int sim_guard_acquire(void* gg) {
    unsigned char* g = (unsigned char*)gg;
    if (g[0]) return 0;
    if (!g_on || !g_cur) { if (g[1]) return 0; g[1] = 1; return 1; }
    if (g[1]) wait_until([g] { return g[0] || !g[1]; });
    if (g[0]) return 0;
    g[1] = 1; return 1;
}
void sim_guard_release(void* gg) { unsigned char* g = (unsigned char*)gg; g[0] = 1; g[1] = 0; if (g_inlib) sync_point(); }
void sim_guard_abort(void* gg) { unsigned char* g = (unsigned char*)gg; g[1] = 0; }

// ---- destructors of thread_local objects
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) { if (g_on && g_cur) { EngineGuard eg; g_cur->dtors.push_back(std::make_pair(f, o)); } return 0; }

// ---- POSIX threads used directly by library code
static void* rsym(const char* n) { return dlsym(RTLD_NEXT, n); }
// Under the simulator locks live in the engine's own table: who owns what is the simulator's state,
// and asking whether a waiter could go on must not change it.
struct Mx { Th* owner; int depth; int readers; };
static std::map<void*, Mx>* g_mx;
static Mx& mx(void* m) { if (!g_mx) g_mx = new std::map<void*, Mx>(); return (*g_mx)[m]; }
static void mx_drop(void* m, const Mx& x) { if (!x.owner && !x.readers) g_mx->erase(m); }
static bool mx_free(void* m) { if (!g_mx) return true; std::map<void*, Mx>::iterator i = g_mx->find(m); return i == g_mx->end() || (!i->second.owner && !i->second.readers); }
static bool mx_nowriter(void* m) { if (!g_mx) return true; std::map<void*, Mx>::iterator i = g_mx->find(m); return i == g_mx->end() || !i->second.owner; }
static bool timed_wait(std::function<bool()> pred, u64 deadline) { return sim::wait_deadline(pred, deadline); }
static u64 until(clockid_t c, const struct timespec* ts) {      // absolute time -> step count (50 ns a step)
    u64 want = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec; struct timespec n; clock_gettime(c, &n);
    u64 have = (u64)n.tv_sec * 1000000000ull + n.tv_nsec;
    return g_steps + (want > have ? (want - have) / 50 + 1 : 0);
}
static int mx_take(pthread_mutex_t* m, int how, u64 deadline) {     // how: 0 lock, 1 trylock, 2 timed
    if (g_inlib) sync_point();
    EngineGuard eg;
    int kind = m->__data.__kind & 3;
    Mx& x = mx(m);
    if (x.owner == g_cur) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { x.depth++; return 0; }
        if (how == 1) return EBUSY;
        if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    }
    if (how == 1) { if (x.owner) return EBUSY; }
    else if (how == 0) wait_until([m] { return mx_free(m); });
    else if (!timed_wait([m] { return mx_free(m); }, deadline)) return ETIMEDOUT;
    Mx& y = mx(m); y.owner = g_cur; y.depth = 1; y.readers = 0; return 0;
}
#define SIMT (g_on && g_cur)
int pthread_mutex_lock(pthread_mutex_t* m) { if (!SIMT) { typedef int (*F)(pthread_mutex_t*); static F f; if (!f) f = (F)rsym("pthread_mutex_lock"); return f(m); } return mx_take(m, 0, 0); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!SIMT) { typedef int (*F)(pthread_mutex_t*); static F f; if (!f) f = (F)rsym("pthread_mutex_trylock"); return f(m); } return mx_take(m, 1, 0); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { if (!SIMT) return ((int (*)(pthread_mutex_t*, const struct timespec*))rsym("pthread_mutex_timedlock"))(m, ts); return mx_take(m, 2, until(CLOCK_REALTIME, ts)); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { if (!SIMT) return ((int (*)(pthread_mutex_t*, clockid_t, const struct timespec*))rsym("pthread_mutex_clocklock"))(m, c, ts); return mx_take(m, 2, until(c, ts)); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!SIMT) { typedef int (*F)(pthread_mutex_t*); static F f; if (!f) f = (F)rsym("pthread_mutex_unlock"); return f(m); }
    { EngineGuard eg; Mx& x = mx(m); if (x.depth > 1) { x.depth--; return 0; } x.owner = nullptr; x.depth = 0; mx_drop(m, x); }
    if (g_inlib) sync_point();
    return 0;
}
// readers/writer locks (std::shared_mutex)
typedef int (*rw_f)(pthread_rwlock_t*);
static int rw_take(pthread_rwlock_t* l, bool write, bool trial) {
    if (g_inlib) sync_point();
    EngineGuard eg;
    if (mx(l).owner == g_cur && !trial) return EDEADLK;
    if (trial) { if (write ? !mx_free(l) : !mx_nowriter(l)) return EBUSY; }
    else if (write) wait_until([l] { return mx_free(l); });
    else wait_until([l] { return mx_nowriter(l); });
    Mx& x = mx(l); if (write) x.owner = g_cur; else x.readers++;
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return SIMT ? rw_take(l, false, false) : ((rw_f)rsym("pthread_rwlock_rdlock"))(l); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return SIMT ? rw_take(l, true, false) : ((rw_f)rsym("pthread_rwlock_wrlock"))(l); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return SIMT ? rw_take(l, false, true) : ((rw_f)rsym("pthread_rwlock_tryrdlock"))(l); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return SIMT ? rw_take(l, true, true) : ((rw_f)rsym("pthread_rwlock_trywrlock"))(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!SIMT) return ((rw_f)rsym("pthread_rwlock_unlock"))(l);
    { EngineGuard eg; Mx& x = mx(l); if (x.owner) x.owner = nullptr; else if (x.readers) x.readers--; mx_drop(l, x); }
    if (g_inlib) sync_point();
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) { if (!SIMT) return ((int (*)(pthread_spinlock_t*))rsym("pthread_spin_lock"))(l); if (g_inlib) sync_point(); EngineGuard eg; void* k = (void*)l; wait_until([k] { return mx_free(k); }); mx(k).owner = g_cur; return 0; }
int pthread_spin_unlock(pthread_spinlock_t* l) { if (!SIMT) return ((int (*)(pthread_spinlock_t*))rsym("pthread_spin_unlock"))(l); { EngineGuard eg; Mx& x = mx((void*)l); x.owner = nullptr; mx_drop((void*)l, x); } if (g_inlib) sync_point(); return 0; }
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!g_on || !g_cur) return ((F)rsym("pthread_create"))(th, at, fn, arg);
    EngineGuard eg;
    Th* holder = nullptr; (void)holder;
    Th** slot = new Th*(nullptr);
    Th* t = new_thread([slot, fn, arg] { g_inlib = true; void* r = fn(arg); g_inlib = false; (*slot)->posix_ret = r; (*slot)->posix_done = true; });
    *slot = t; t->busy = true; t->icv = g_cur->icv;
    *th = t->pt;
    return 0;
}
int pthread_join(pthread_t p, void** ret) {
    typedef int (*F)(pthread_t, void**);
    if (g_on && g_cur) {
        for (Th* t : g_th) if (t->pt == p) { wait_until([t] { return t->state == 2; }); if (ret) *ret = t->posix_ret; return ((F)rsym("pthread_join"))(p, nullptr); }
    }
    return ((F)rsym("pthread_join"))(p, ret);
}
struct CondW { int sig; };
static std::vector<std::pair<pthread_cond_t*, CondW*> >* g_conds;
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    EngineGuard eg;
    if (!g_conds) g_conds = new std::vector<std::pair<pthread_cond_t*, CondW*> >();
    CondW w; w.sig = 0; g_conds->push_back(std::make_pair(c, &w));
    pthread_mutex_unlock(m);
    CondW* wp = &w; bool ok = true;
    if (deadline) ok = timed_wait([wp] { return wp->sig != 0; }, deadline); else wait_until([wp] { return wp->sig != 0; });
    for (size_t i = 0; i < g_conds->size(); i++) if ((*g_conds)[i].second == wp) { g_conds->erase(g_conds->begin() + i); break; }
    pthread_mutex_lock(m);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return SIMT ? cond_wait(c, m, 0) : ((int (*)(pthread_cond_t*, pthread_mutex_t*))rsym("pthread_cond_wait"))(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return SIMT ? cond_wait(c, m, until(CLOCK_REALTIME, ts)) : ((int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))rsym("pthread_cond_timedwait"))(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { return SIMT ? cond_wait(c, m, until(k, ts)) : ((int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))rsym("pthread_cond_clockwait"))(c, m, k, ts); }
int sched_yield() noexcept { if (SIMT) { yield_point(); return 0; } return (int)syscall(SYS_sched_yield); }
static int sim_sleep(u64 ns) { timed_wait([] { return false; }, g_steps + ns / 50 + 1); return 0; }
int nanosleep(const struct timespec* ts, struct timespec* rem) { if (SIMT) return sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec); return (int)syscall(SYS_nanosleep, ts, rem); }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) { if (SIMT) { if (flags & TIMER_ABSTIME) { timed_wait([] { return false; }, until(c, ts)); return 0; } return sim_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec); } return (int)syscall(SYS_clock_nanosleep, c, flags, ts, rem) ? errno : 0; }
int usleep(useconds_t us) { struct timespec ts; ts.tv_sec = us / 1000000; ts.tv_nsec = us % 1000000 * 1000; return nanosleep(&ts, nullptr); }
// std::future's waiting primitive (libstdc++)
bool sim_futex_wait(void*, unsigned* a, unsigned v, bool has, long sec, long ns) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
bool sim_futex_wait2(void*, unsigned* a, unsigned v, bool has, long sec, long ns) __asm__("_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE");
void sim_futex_wake(unsigned* a) __asm__("_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj");
static bool fut_wait_any(unsigned* a, unsigned v, bool has, long sec, long ns, clockid_t c) {
    if (!SIMT) { syscall(SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); return true; }
    if (g_inlib) sync_point();
    EngineGuard eg;
    if (!has) { wait_until([a, v] { return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; }); return true; }
    struct timespec ts; ts.tv_sec = sec; ts.tv_nsec = ns;
    return timed_wait([a, v] { return __atomic_load_n(a, __ATOMIC_SEQ_CST) != v; }, until(c, &ts));
}
bool sim_futex_wait(void*, unsigned* a, unsigned v, bool has, long sec, long ns) { return fut_wait_any(a, v, has, sec, ns, CLOCK_REALTIME); }
bool sim_futex_wait2(void*, unsigned* a, unsigned v, bool has, long sec, long ns) { return fut_wait_any(a, v, has, sec, ns, CLOCK_MONOTONIC); }
void sim_futex_wake(unsigned* a) { syscall(SYS_futex, a, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0); if (SIMT && g_inlib) sync_point(); }
int pthread_cond_signal(pthread_cond_t* c) {
    typedef int (*F)(pthread_cond_t*);
    if (!g_on || !g_cur) return ((F)rsym("pthread_cond_signal"))(c);
    if (g_conds) for (size_t i = 0; i < g_conds->size(); i++) if ((*g_conds)[i].first == c) { (*g_conds)[i].second->sig = 1; g_conds->erase(g_conds->begin() + i); break; }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    typedef int (*F)(pthread_cond_t*);
    if (!g_on || !g_cur) return ((F)rsym("pthread_cond_broadcast"))(c);
    if (g_conds) for (size_t i = 0; i < g_conds->size();) { if ((*g_conds)[i].first == c) { (*g_conds)[i].second->sig = 1; g_conds->erase(g_conds->begin() + i); } else i++; }
    return 0;
}
int pthread_detach(pthread_t p) { if (SIMT) for (Th* t : g_th) if (t->pt == p) return 0; return ((int (*)(pthread_t))rsym("pthread_detach"))(p); }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    typedef int (*F)(pthread_once_t*, void (*)(void));
    if (!g_on || !g_cur) return ((F)rsym("pthread_once"))(o, fn);
    if (*o == 2) return 0;
    if (*o == 0x51) { wait_until([o] { return *o != 0x51; }); if (*o == 2) return 0; }
    *o = 0x51;
    try { fn(); } catch (...) { *o = 0; throw; }
    *o = 2; return 0;
}
}
