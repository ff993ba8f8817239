// I/O seam: paths under /sim/ live on an in-memory disk. libstdc++ file streams reach the operating
// system through fopen/fileno/read/write/writev/lseek/fstat/ioctl/fclose; those symbols are supplied here.
#include "engine.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cstdarg>

namespace sim {
static IoCfg g_io;
IoCfg& io() { return g_io; }
struct File { char* path; char* d; size_t n, cap; size_t seen; };
static const int MAXF = 256;
static File g_files[MAXF]; static int g_nf = 0;
struct Open { FILE* fp; int file; size_t pos; bool rd, wr, app; bool used; };
static const int FDBASE = 100000;
static Open g_open[MAXF];
static u64 g_nops = 0, g_hard = 0, g_soft = 0, g_opens = 0, g_closes = 0;

static int find(const char* p) { for (int i = 0; i < g_nf; i++) if (g_files[i].path && !strcmp(g_files[i].path, p)) return i; return -1; }
static int create(const char* p) {
    int i = find(p); if (i >= 0) return i;
    if (g_nf >= MAXF) { fprintf(stderr, "sim: too many files\n"); _exit(77); }
    i = g_nf++; g_files[i].path = strdup(p); g_files[i].d = nullptr; g_files[i].n = g_files[i].cap = g_files[i].seen = 0; return i;
}
static void put_at(File& f, size_t pos, const void* s, size_t n) {
    if (pos + n > f.cap) { f.cap = (pos + n) * 2 + 256; f.d = (char*)realloc(f.d, f.cap); }
    if (!n) return;
    if (pos > f.n) memset(f.d + f.n, 0, pos - f.n);
    memcpy(f.d + pos, s, n); if (pos + n > f.n) f.n = pos + n;
}
void disk_clear() {  for (int i = 0; i < g_nf; i++) { free(g_files[i].path); free(g_files[i].d); g_files[i].path = nullptr; } g_nf = 0; }
void disk_put(const std::string& p, const std::string& b) { EngineGuard eg; File& f = g_files[create(p.c_str())]; f.n = 0; put_at(f, 0, b.data(), b.size()); }
bool disk_exists(const std::string& p) { return find(p.c_str()) >= 0; }
std::string disk_get(const std::string& p) { EngineGuard eg; int i = find(p.c_str()); return i < 0 ? std::string() : std::string(g_files[i].d, g_files[i].n); }
bool io_read_to_end(const std::string& p) { int i = find(p.c_str()); return i >= 0 && g_files[i].seen >= g_files[i].n; }
u64 io_faults() { return g_hard; }
u64 io_transparent() { return g_soft; }
u64 io_ops() { return g_nops; }
static u64 used() { u64 t = 0; for (int i = 0; i < g_nf; i++) t += g_files[i].n; return t; }

static ssize_t sim_read(Open& o, void* buf, size_t n) {
    if (g_inlib) sync_point();
    EngineGuard eg;
    u64 ord = g_nops++;
    File& f = g_files[o.file];
    size_t left = o.pos < f.n ? f.n - o.pos : 0;
    u64 par = 0;
    if (fault_event(F_EINTR_R, ord, !g_replay && g_io.p_eintr > 0 && g_frng.chance(g_io.p_eintr), par)) { g_soft++; errno = EINTR; return -1; }
    bool here = g_io.err_at >= 0 && o.pos >= (size_t)g_io.err_at;
    if (force_fault(F_EOF_R, ord, here && g_io.err_kind == 2)) { g_hard++; if (!g_io.err_sticky) g_io.err_at = -1; return 0; }
    if (force_fault(F_EISDIR_R, ord, here && g_io.err_kind == 1)) { g_hard++; if (!g_io.err_sticky) g_io.err_at = -1; errno = EISDIR; return -1; }
    if (force_fault(F_EIO_R, ord, here && g_io.err_kind == 0) || fault_event(F_EIO_R, ord, !g_replay && g_io.p_err > 0 && g_frng.chance(g_io.p_err), par)) { g_hard++; if (!g_io.err_sticky) g_io.err_at = -1; errno = EIO; return -1; }
    size_t want = n < left ? n : left;
    if (g_io.err_at >= 0 && (size_t)g_io.err_at > o.pos && o.pos + want > (size_t)g_io.err_at) want = g_io.err_at - o.pos;
    par = want;
    bool sh = false;
    if (!g_replay && want > 1) {
        if (g_io.max_chunk > 0 && want > (size_t)g_io.max_chunk) { sh = true; par = 1 + g_frng.below(g_io.max_chunk); }
        else if (g_io.p_short > 0 && g_frng.chance(g_io.p_short)) { sh = true; par = 1 + g_frng.below(want); }
    }
    if (fault_event(F_SHORT_R, ord, sh, par)) { g_soft++; if (par < want) want = par ? par : 1; }
    memcpy(buf, f.d + o.pos, want);
    o.pos += want; if (o.pos > f.seen) f.seen = o.pos;
    return (ssize_t)want;
}
static u64 g_written = 0;
u64 io_written() { return g_written; }
static ssize_t sim_write(Open& o, const void* buf, size_t n) {
    if (g_inlib) sync_point();
    EngineGuard eg;
    u64 ord = g_nops++;
    File& f = g_files[o.file];
    u64 par = 0;
    if (fault_event(F_EINTR_W, ord, !g_replay && g_io.p_eintr > 0 && g_frng.chance(g_io.p_eintr), par)) { g_soft++; errno = EINTR; return -1; }
    if (o.app) o.pos = f.n;
    bool here = g_io.err_at >= 0 && o.pos >= (size_t)g_io.err_at;
    if (force_fault(F_EIO_W, ord, here && g_io.err_kind == 0) || fault_event(F_EIO_W, ord, !g_replay && g_io.p_err > 0 && g_frng.chance(g_io.p_err), par)) { g_hard++; if (!g_io.err_sticky) g_io.err_at = -1; errno = EIO; return -1; }
    if (force_fault(F_ENOSPC_W, ord, (here && g_io.err_kind == 1) || (g_io.capacity >= 0 && used() >= (u64)g_io.capacity && n > 0))) { g_hard++; if (!g_io.err_sticky) g_io.err_at = -1; errno = ENOSPC; return -1; }
    size_t want = n;
    if (g_io.capacity >= 0 && used() + want > (u64)g_io.capacity) want = (u64)g_io.capacity > used() ? g_io.capacity - used() : 0;
    if (g_io.err_at >= 0 && (size_t)g_io.err_at > o.pos && o.pos + want > (size_t)g_io.err_at) want = g_io.err_at - o.pos;
    par = want;
    bool sh = want < n;
    if (!g_replay && want > 1) {
        if (g_io.max_chunk > 0 && want > (size_t)g_io.max_chunk) { sh = true; par = 1 + g_frng.below(g_io.max_chunk); }
        else if (g_io.p_short > 0 && g_frng.chance(g_io.p_short)) { sh = true; par = 1 + g_frng.below(want); }
    }
    if (fault_event(F_SHORT_W, ord, sh, par)) { g_soft++; if (par < want) want = par ? par : 1; }
    size_t keep = want;
    if (g_io.crash_at >= 0 && g_written + want > (u64)g_io.crash_at && force_fault(F_CRASH, ord, true)) { keep = (u64)g_io.crash_at > g_written ? g_io.crash_at - g_written : 0; g_hard++; }
    g_written += want;
    put_at(f, o.pos, buf, keep);        // after a power loss the disk keeps what it had; the dying process sees success
    o.pos += want;
    return (ssize_t)want;
}
static Open* by_fd(int fd) { if (fd < FDBASE || fd >= FDBASE + MAXF) return nullptr; Open& o = g_open[fd - FDBASE]; return o.used ? &o : nullptr; }
static Open* by_fp(FILE* fp) { for (int i = 0; i < MAXF; i++) if (g_open[i].used && g_open[i].fp == fp) return &g_open[i]; return nullptr; }
static ssize_t ck_read(void* c, char* b, size_t n) { return sim_read(*(Open*)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) { ssize_t r = sim_write(*(Open*)c, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void* c, off64_t* off, int wh) { Open& o = *(Open*)c; i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o.pos : (i64)g_files[o.file].n; if (b + *off < 0) return -1; o.pos = b + *off; *off = o.pos; return 0; }
static FILE* sim_fopen(const char* path, const char* mode) {
    EngineGuard eg;
    u64 ord = g_opens++;
    u64 par = g_io.p_open > 0 && !g_replay ? g_frng.below(3) : 0;
    if (fault_event(F_OPEN, ord, !g_replay && g_io.p_open > 0 && g_frng.chance(g_io.p_open), par)) { g_hard++; errno = par == 0 ? ENOENT : par == 1 ? EACCES : EMFILE; return nullptr; }
    bool rd = mode[0] == 'r', plus = strchr(mode, '+') != nullptr;
    int fi = find(path);
    if (rd && fi < 0) { errno = ENOENT; return nullptr; }
    if (fi < 0) fi = create(path);
    if (mode[0] == 'w') g_files[fi].n = 0;
    for (int i = 0; i < MAXF; i++) if (!g_open[i].used) {
        Open& o = g_open[i];
        o.used = true; o.file = fi; o.pos = 0; o.rd = rd || plus; o.wr = !rd || plus; o.app = mode[0] == 'a';
        cookie_io_functions_t fn; fn.read = ck_read; fn.write = ck_write; fn.seek = ck_seek; fn.close = nullptr;
        o.fp = fopencookie(&o, mode, fn);
        return o.fp;
    }
    errno = EMFILE; return nullptr;
}
}  // namespace sim
using namespace sim;
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
FILE* fopen(const char* p, const char* m) { if (g_on && !strncmp(p, "/sim/", 5)) return sim_fopen(p, m); return real<FILE* (*)(const char*, const char*)>("fopen")(p, m); }
FILE* fopen64(const char* p, const char* m) { if (g_on && !strncmp(p, "/sim/", 5)) return sim_fopen(p, m); return real<FILE* (*)(const char*, const char*)>("fopen64")(p, m); }
int fileno(FILE* f) noexcept { if (g_on) { Open* o = by_fp(f); if (o) return FDBASE + (int)(o - g_open); } return real<int (*)(FILE*)>("fileno")(f); }
int fclose(FILE* f) {
    Open* o = g_on ? by_fp(f) : nullptr;
    if (!o) return real<int (*)(FILE*)>("fclose")(f);
    EngineGuard eg;
    int r = real<int (*)(FILE*)>("fclose")(f);
    o->used = false;
    u64 ord = g_closes++, par = 0;
    if (fault_event(F_CLOSE, ord, !g_replay && g_io.p_close > 0 && g_frng.chance(g_io.p_close), par)) { g_hard++; errno = EIO; return EOF; }
    return r;
}
ssize_t read(int fd, void* b, size_t n) { Open* o = g_on ? by_fd(fd) : nullptr; if (o) return sim_read(*o, b, n); return real<ssize_t (*)(int, void*, size_t)>("read")(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { Open* o = g_on ? by_fd(fd) : nullptr; if (o) return sim_write(*o, b, n); return real<ssize_t (*)(int, const void*, size_t)>("write")(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) {
    Open* o = g_on ? by_fd(fd) : nullptr;
    if (!o) return real<ssize_t (*)(int, const struct iovec*, int)>("writev")(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = sim_write(*o, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; }
    return t;
}
static off64_t sk(Open* o, off64_t off, int wh) { off64_t x = off; if (ck_seek(o, &x, wh)) { errno = EINVAL; return -1; } return x; }
off64_t lseek64(int fd, off64_t off, int wh) noexcept { Open* o = g_on ? by_fd(fd) : nullptr; if (o) return sk(o, off, wh); return real<off64_t (*)(int, off64_t, int)>("lseek64")(fd, off, wh); }
off_t lseek(int fd, off_t off, int wh) noexcept { Open* o = g_on ? by_fd(fd) : nullptr; if (o) return sk(o, off, wh); return real<off_t (*)(int, off_t, int)>("lseek")(fd, off, wh); }
static int st(Open* o, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; s->st_size = g_files[o->file].n; s->st_blksize = 4096; return 0; }
int fstat(int fd, struct stat* s) noexcept { Open* o = g_on ? by_fd(fd) : nullptr; if (o) return st(o, s); return real<int (*)(int, struct stat*)>("fstat")(fd, s); }
int fstat64(int fd, struct stat64* s) noexcept { Open* o = g_on ? by_fd(fd) : nullptr; if (o) return st(o, (struct stat*)s); return real<int (*)(int, struct stat64*)>("fstat64")(fd, s); }
int ioctl(int fd, unsigned long r, ...) noexcept {
    va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap);
    Open* o = g_on ? by_fd(fd) : nullptr;
    if (o) { if (r == FIONREAD) { *(int*)a = (int)(g_files[o->file].n - o->pos); return 0; } errno = ENOTTY; return -1; }
    return real<int (*)(int, unsigned long, void*)>("ioctl")(fd, r, a);
}
int poll(struct pollfd* p, nfds_t n, int t) {
    if (g_on && n == 1 && by_fd(p->fd)) { p->revents = p->events; return 1; }
    return real<int (*)(struct pollfd*, nfds_t, int)>("poll")(p, n, t);
}
}
