// Allocator seam: global operator new/delete over a fixed-address arena with redzones, a shadow map
// (out-of-bounds and use-after-free are detected at the instrumented access), seeded garbage, seeded
// layout/reuse policy, leak accounting and injected allocation failures.  Also the simulated clock and entropy.
#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <dlfcn.h>
#include <link.h>
#include <random>

namespace sim {
unsigned char* g_shadow = nullptr;
u64 g_garbage_seed = 1; int g_garbage_mode = 0;
static int g_reuse = 0;             // 0 quarantine, 1 LIFO reuse, 2 random gaps
static Rng g_hrng(3);
static uintptr_t g_top = 0;
static const u64 LIVE = 0x11FE11FE11FE11FEull, DEAD = 0xDEADDEADDEADDEADull;
struct Hdr { u64 magic; u64 size; u64 cls_flags; void* next; };      // 32 bytes before the user block
static const int NCLS = 96;
static Hdr* g_free[NCLS];
static Hdr *g_qh = nullptr, *g_qt = nullptr; static u64 g_qbytes = 0;
static u64 g_allocs = 0, g_failed = 0, g_live = 0, g_liveb = 0;
static u64 g_fail_lo = ~0ull, g_fail_hi = 0; static double g_fail_p = 0;
static u64 g_seq = 0;       // sequence number of the last allocation (a live block carries its own in Hdr::next)
static const u64 QMAX = 24ull << 20;

static int cls_of(u64 n, u64& cap) {     // capacity classes
    if (n <= 1024) { int c = (int)((n + 15) / 16); if (c == 0) c = 1; cap = (u64)c * 16; return c; }   // 1..64
    u64 cap2 = 1024; int c = 64;
    while (cap2 < n) { c++; u64 mid = cap2 + cap2 / 2; if (mid >= n) { cap = mid; return c; } c++; cap2 *= 2; }
    cap = cap2; return c;
}
void heap_init() {
    if (g_top) return;
    void* p = mmap((void*)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)ARENA) { static const char m[] = "sim: cannot map arena\n"; (void)!write(2, m, sizeof m - 1); _exit(77); }
    g_shadow = (unsigned char*)mmap(nullptr, ARENA_SZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_shadow == MAP_FAILED) _exit(77);
    g_top = ARENA + 4096;
}
// A run's heap is a region of its own, empty at the start: what the process allocated before the run leaves no trace in it.
static uintptr_t g_run_base = 0;
void heap_run_start() {
    heap_init(); g_run_base = ARENA + (1ull << 30); if (g_top < g_run_base) g_top = g_run_base;
    memset(g_free, 0, sizeof g_free); g_qh = g_qt = nullptr; g_qbytes = 0; g_allocs = g_failed = g_live = g_liveb = 0; g_hrng = Rng(3);
}
void heap_policy(u64 seed) {
    g_hrng = Rng(mix(seed, 0x4ea9)); g_garbage_seed = seed;
    g_garbage_mode = (int)g_hrng.below(4); g_reuse = (int)g_hrng.below(3);
}
int heap_mode() { return g_garbage_mode * 3 + g_reuse; }
static inline unsigned char* shp(uintptr_t a) { return g_shadow + ((a - ARENA) >> 3); }
static void set_shadow(uintptr_t a, u64 n) {
    u64 full = n / 8; memset(shp(a), 8, full);
    if (n & 7) *shp(a + full * 8) = n & 7;
}
static void fill(void* p, u64 n) {
    switch (g_garbage_mode) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xff, n); break;
        case 2: { u64* q = (u64*)p; Rng r(g_hrng.next()); u64 i = 0; for (; i + 8 <= n; i += 8) *q++ = r.next(); memset((char*)p + i, 0xA5, n - i); break; }
        default: { double v = 1.0 + (double)(g_hrng.next() % 1000); u64 i = 0; for (; i + 8 <= n; i += 8) memcpy((char*)p + i, &v, 8); memset((char*)p + i, 0x3f, n - i); break; }
    }
}
static void* do_alloc(u64 n, u64 align) {
    heap_init();
    if (n > (1ull << 30)) return nullptr;
    u64 cap; int c = cls_of(n, cap);
    Hdr* h = nullptr;
    if (align <= 16 && c < NCLS && g_free[c]) { h = g_free[c]; g_free[c] = (Hdr*)h->next; }
    if (!h) {
        uintptr_t a = g_top;
        if (g_reuse == 2) a += 16 * g_hrng.below(64);
        a = ((a + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1));
        if (a + cap + 64 > ARENA + ARENA_SZ) return nullptr;
        h = (Hdr*)(a - sizeof(Hdr));
        g_top = (a + cap + 32 + 15) & ~(uintptr_t)15;
    }
    void* u = h + 1;
    static u64 seq = 0; h->magic = LIVE; h->next = (void*)(uintptr_t)++seq; g_seq = seq; h->size = n; h->cls_flags = (u64)c | (align > 16 ? 1ull << 32 : 0) | (g_inlib ? 1ull << 33 : 0);
    set_shadow((uintptr_t)u, n);
    meta_clear((uintptr_t)u, n);
    if (n) fill(u, n);
    if (g_inlib) { g_live++; g_liveb += n; }
    return u;
}
static void do_free(void* p) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA >= ARENA_SZ || (a & 15)) fail("invalid-free", "delete of a pointer that was never allocated");
    Hdr* h = (Hdr*)p - 1;
    if (h->magic == DEAD) fail("double-free", "block deleted twice (size %llu)", (unsigned long long)h->size);
    if (h->magic != LIVE) fail("invalid-free", "delete of a pointer that was never allocated");
    h->magic = DEAD;
    if (h->cls_flags >> 33 & 1) { g_live--; g_liveb -= h->size; }
    u64 n = h->size; int c = (int)(h->cls_flags & 0xffffffff); bool big = h->cls_flags >> 32 & 1;
    memset(shp(a), 0xFD, (n + 7) / 8);
    if (g_garbage_mode != 0) memset(p, 0xDD, n < 4096 ? n : 4096);
    if (big || c >= NCLS || a < g_run_base) return;
    if (g_reuse == 1) { h->next = g_free[c]; g_free[c] = h; return; }
    h->next = nullptr;
    if (g_qt) g_qt->next = h; else g_qh = h;
    g_qt = h; g_qbytes += n + 64;
    while (g_qbytes > QMAX && g_qh) {
        Hdr* x = g_qh; g_qh = (Hdr*)x->next; if (!g_qh) g_qt = nullptr;
        g_qbytes -= x->size + 64; int xc = (int)(x->cls_flags & 0xffffffff);
        x->next = g_free[xc]; g_free[xc] = x;
    }
}
void heap_check(uintptr_t a, size_t n, bool w) {
    unsigned char* s = shp(a);
    size_t off = a & 7;
    if (__builtin_expect(off + n <= 8 && (*s == 8 || (*s < 8 && off + n <= *s)), 1)) return;
    if (n == 16 && off == 0 && s[0] == 8 && s[1] == 8) return;
    uintptr_t e = a + n;
    for (uintptr_t x = a & ~7ull; x < e; x += 8) {
        unsigned v = *shp(x);
        size_t hi = e - x < 8 ? e - x : 8;
        if (v == 0xFD) fail("use-after-free", "%s of %zu bytes in a freed block", w ? "write" : "read", n);
        if (hi > v) fail("heap-out-of-bounds", "%s of %zu bytes outside every live heap block", w ? "write" : "read", n);
    }
}
static bool inject() {
    if (!g_inlib) return false;
    u64 o = g_allocs++;
    u64 param = 0;
    bool want = (o >= g_fail_lo && o < g_fail_hi) || (g_fail_p > 0 && g_frng.chance(g_fail_p));
    if (!want && !g_replay) return false;
    if (fault_event(F_ALLOC, o, want, param)) { g_failed++; return true; }
    return false;
}
u64 alloc_count() { return g_allocs; }
void alloc_fail_at(u64 o, u64 n) { g_fail_lo = o; g_fail_hi = o + n; }
void alloc_fail_clear() { g_fail_lo = ~0ull; g_fail_hi = 0; g_fail_p = 0; }
void alloc_fail_random(double p) { g_fail_p = p; }
u64 alloc_failures() { return g_failed; }
// Leaks: blocks library code allocated since the mark that are alive and that nothing static (a global, a function-local static, a
// thread_local of a running thread) leads to. A table a function keeps for later calls is not a leak.
extern std::vector<Th*> g_th;
LeakMark leak_mark() { LeakMark m; m.live = g_live; m.seq = g_seq; return m; }
static int tls_cb(struct dl_phdr_info* i, size_t, void* p) { for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && !*i->dlpi_name) *(u64*)p = i->dlpi_phdr[k].p_memsz + i->dlpi_phdr[k].p_align; return 0; }
extern "C" { extern char __data_start, _end; }
i64 leaked(LeakMark& m) {
    if (g_live == m.live) return 0;
    EngineGuard eg;
    struct B { uintptr_t a; u64 n; Hdr* h; bool seen; };
    static B* bs = nullptr; static u64 cap = 0; u64 nb = 0;     // (kept out of the simulated heap)
    for (uintptr_t a = g_run_base; a + sizeof(Hdr) <= g_top; a += 16) { Hdr* h = (Hdr*)a; if (h->magic != LIVE) continue; if (nb == cap) { u64 c = cap ? cap * 2 : 4096; B* q = (B*)mmap(nullptr, c * sizeof(B), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (bs) { memcpy(q, bs, nb * sizeof(B)); munmap(bs, cap * sizeof(B)); } bs = q; cap = c; } B b = {(uintptr_t)(h + 1), h->size, h, false}; bs[nb++] = b; }
    u64* wl = (u64*)mmap(nullptr, (nb + 1) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); u64 nw = 0;
    auto visit = [&](uintptr_t w) { if (w < g_run_base || w >= g_top) return; u64 lo = 0, hi = nb; while (lo < hi) { u64 mid = (lo + hi) / 2; if (bs[mid].a <= w) lo = mid + 1; else hi = mid; } if (!lo) return; B& b = bs[lo - 1]; if (w > b.a + b.n || b.seen) return; b.seen = true; wl[nw++] = lo - 1; };
    auto scan = [&](uintptr_t a, uintptr_t e) { for (a = (a + 7) & ~7ull; a + 8 <= e; a += 8) visit(*(uintptr_t*)a); };
    uintptr_t hide[] = {(uintptr_t)&g_qh, (uintptr_t)&g_qt}; (void)hide;
    scan((uintptr_t)&__data_start, (uintptr_t)&_end);
    u64 tls = 0; dl_iterate_phdr(tls_cb, &tls); for (Th* t : g_th) if (t->state != 2) scan((uintptr_t)t->pt - tls, (uintptr_t)t->pt);
    while (nw) { B& b = bs[wl[--nw]]; scan(b.a, b.a + b.n); }
    i64 lost = 0; for (u64 i = 0; i < nb; i++) if (!bs[i].seen && (bs[i].h->cls_flags >> 33 & 1) && (u64)(uintptr_t)bs[i].h->next > m.seq) lost++;
    munmap(wl, (nb + 1) * 8);
    if (!lost) m.live = g_live;
    return lost;
}
u64 live_blocks() { return g_live; }
u64 live_bytes() { return g_liveb; }
void alloc_reset_quiet() { alloc_fail_clear(); }

// ---- simulated clock and entropy
static u64 g_env = 1; static u64 g_tick = 0;
void env_seed(u64 s) { g_env = s; g_tick = 0; }
u64 env_now_ns() { return 1600000000ull * 1000000000ull + (g_env % 400000000ull) * 1000000000ull + g_steps * 50 + (g_tick += 1000); }
u64 env_rand() { static u64 n = 0; return mix(g_env, 991 + n++); }
}  // namespace sim

using namespace sim;
static void* new_or_throw(size_t n, size_t al) {
    if (inject()) throw std::bad_alloc();
    void* p = do_alloc(n, al);
    if (!p) throw std::bad_alloc();
    return p;
}
static void* new_or_null(size_t n, size_t al) noexcept { if (inject()) return nullptr; return do_alloc(n, al); }
void* operator new(size_t n) { return new_or_throw(n, 16); }
void* operator new[](size_t n) { return new_or_throw(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_or_null(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_or_null(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a < 16 ? 16 : (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return new_or_throw(n, (size_t)a < 16 ? 16 : (size_t)a); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, size_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t) noexcept { do_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p); }

// ---- clock and entropy symbols
extern "C" {
time_t time(time_t* t) { time_t v; if (g_on) v = (time_t)(env_now_ns() / 1000000000ull); else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } if (t) *t = v; return v; }
int clock_gettime(clockid_t c, struct timespec* ts) { if (!g_on) return (int)syscall(SYS_clock_gettime, c, ts); u64 n = env_now_ns(); ts->tv_sec = n / 1000000000ull; ts->tv_nsec = n % 1000000000ull; return 0; }
int gettimeofday(struct timeval* tv, void*) noexcept { if (!g_on) return (int)syscall(SYS_gettimeofday, tv, nullptr); u64 n = env_now_ns(); tv->tv_sec = n / 1000000000ull; tv->tv_usec = n % 1000000000ull / 1000; return 0; }
clock_t clock() noexcept { u64 n = g_on ? env_now_ns() : 0; return (clock_t)(n / 1000); }
static u64 g_rand = 1;
int rand() noexcept { g_rand = mix(g_rand, 5); return (int)(g_rand & 0x7fffffff); }
void srand(unsigned s) noexcept { g_rand = s; }
long random() noexcept { return rand(); }
void srandom(unsigned s) noexcept { g_rand = s; }
}
unsigned int std::random_device::_M_getval() { return (unsigned)env_rand(); }
