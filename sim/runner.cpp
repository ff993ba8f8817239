// Runner: seeded search over runs (one forked process per run), gating, minimisation, replay, evidence.
#include "engine.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <sched.h>
#include <set>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

namespace sim {
extern std::vector<Ev> g_trace;
extern std::vector<int> g_skip;
[[noreturn]] void finish(int);

static double now() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static Shared* map_shared() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}
static double g_timeout = 60;
static std::map<std::string, std::string> g_known;      // open findings of this property: key -> text
static void load_known(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) return;
    char line[2048], id[64], key[128]; int n;
    while (fgets(line, sizeof line, f)) if (sscanf(line, "finding: property=%63s key=%127s %n", id, key, &n) == 2 && !strcmp(id, property().id)) { std::string t = line + n; while (!t.empty() && (t.back() == '\n' || t.back() == '\r')) t.pop_back(); g_known[key] = t; }
    fclose(f);
}
void known(const char* key, const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!g_known.count(key)) fail(key, "%s", b);
    probe((std::string("known:") + key).c_str());
}
static void on_sig(int s) {
    const char* n = s == SIGSEGV ? "segmentation-fault" : s == SIGABRT ? "abort" : s == SIGFPE ? "arithmetic-fault" : s == SIGALRM ? "no-progress" : "crash";
    signal(s, SIG_DFL);
    if (!g_sh) _exit(9);
    g_inlib = false;
    fail(n, "simulated process died: signal %d (%s)%s", s, n, s == SIGABRT ? " - uncaught exception, failed assertion or std::terminate" : "");
}
struct Spec { u64 seed; int index; int scenario; bool replay; std::vector<Ev> trace; std::vector<int> skip; };

// execute one run in a forked child; results land in sh
static void execute(Shared* sh, const Spec& sp, bool quick) {
    sh->status = 0; sh->cls[0] = sh->msg[0] = sh->notes[0] = 0; sh->hash = sh->schash = sh->whash = 0;
    sh->steps = sh->switches = sh->forced = sh->regions = sh->conflicts = sh->faults = 0;
    memset(sh->fault_count, 0, sizeof sh->fault_count);
    sh->maxop = -1; sh->nev = 0; sh->ev_overflow = false; sh->marked = 0; sh->solo_status = 0; sh->solo_n = 0;
    snprintf(sh->scenario, sizeof sh->scenario, "%s", property().scenarios[sp.scenario].name);
    pid_t p = fork();
    if (p < 0) { sh->status = 3; return; }
    if (p == 0) {
        g_sh = sh;
        setpgid(0, 0);
        int fd = open("/dev/null", O_RDWR); if (!getenv("SIM_STDERR")) dup2(fd, 2);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
        int sg[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM};
        for (int s : sg) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sigaction(s, &sa, nullptr); }
        alarm((unsigned)g_timeout);
        g_replay = sp.replay; g_trace = sp.trace; g_skip = sp.skip;
        reset_run_state();
        capture_cout();
        Run r; r.seed = sp.seed; r.index = sp.index; r.quick = quick;
        run_scenario_main(r, property().scenarios[sp.scenario].fn);
        _exit(0);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    kill(-p, SIGKILL);
    if (sh->status == 0) {
        if (WIFSIGNALED(st)) {          // died before the handler could run (stack overflow on a sim stack)
            sh->status = 2; snprintf(sh->cls, sizeof sh->cls, "crash"); snprintf(sh->msg, sizeof sh->msg, "simulated process killed by signal %d", WTERMSIG(st));
            sh->hash = mix(99, WTERMSIG(st));
        } else { sh->status = 3; snprintf(sh->msg, sizeof sh->msg, "run ended without a verdict (exit %d)", WEXITSTATUS(st)); }
    }
}
static int pick_scenario(u64 seed) {
    Property& P = property(); int tot = 0; for (auto& s : P.scenarios) tot += s.weight;
    int k = (int)(mix(seed, 0x5ce) % tot);
    for (size_t i = 0; i < P.scenarios.size(); i++) { k -= P.scenarios[i].weight; if (k < 0) return (int)i; }
    return 0;
}
struct Meta {       // per worker, shared with the parent
    volatile int runs, viol_index, nondet, err, flaky; volatile int stop;
    u64 steps, switches, forced, regions, conflicts, faults, maxsteps; u64 fc[F_MAX]; u64 double_runs; u64 scen[64];
    int nsig; u64 sig[1 << 20]; u64 viol_seed; int viol_scen; char viol_cls[64], viol_msg[512]; char err_msg[256];
    int nviol; struct { u64 seed; int index, scen; char cls[64]; } viol[16];
    u64 schash_n; int ndist; u64 sch[1 << 20];
};
struct Sample { std::string scen, notes; u64 seed, steps, switches, faults; };

static std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o;
}
static void write_replay(const char* path, const Spec& sp, const Shared* sh, u64 vseed) {
    FILE* f = fopen(path, "w"); if (!f) { perror(path); exit(2); }
    fprintf(f, "# PANSFEM2 deterministic simulation replay. Rerun: python3 /verif/check.py %s --replay %s\n", property().id, path);
    fprintf(f, "property %s\nverif_seed %llu\nscenario %s\nrunseed %llu\nindex %d\nclass %s\n", property().id, (unsigned long long)vseed, property().scenarios[sp.scenario].name, (unsigned long long)sp.seed, sp.index, sh->cls);
    fprintf(f, "# what: %s\n# workload: %s\n", sh->msg, sh->notes);
    fprintf(f, "mode %s\n", sp.replay ? "trace" : "seed");
    for (int k : sp.skip) fprintf(f, "skip %d\n", k);
    fprintf(f, "# schedule and fault trace: preempt <step> <thread> | forced <ordinal> <thread> | fault <kind> <ordinal> <param>\n");
    for (const Ev& e : sp.trace) {
        if (e.kind == EV_PREEMPT) fprintf(f, "preempt %llu %u\n", (unsigned long long)e.at, e.a);
        else if (e.kind == EV_FORCED) fprintf(f, "forced %llu %u\n", (unsigned long long)e.at, e.a);
        else if (e.a >= 1000) fprintf(f, "# implied by the workload: %s at operation %llu\n", fault_name[e.a - 1000], (unsigned long long)e.at);
        else fprintf(f, "fault %s %llu %llu\n", fault_name[e.a], (unsigned long long)e.at, (unsigned long long)e.param);
    }
    fclose(f);
}
static bool read_replay(const char* path, Spec& sp, std::string& cls) {
    FILE* f = fopen(path, "r"); if (!f) { perror(path); return false; }
    char line[4096]; sp.replay = true; sp.scenario = -1; sp.index = 0;
    while (fgets(line, sizeof line, f)) {
        char a[256], b[256], c[256], d[256]; int n = sscanf(line, "%255s %255s %255s %255s", a, b, c, d);
        if (n < 1 || a[0] == '#') continue;
        std::string k = a;
        if (k == "scenario") { for (size_t i = 0; i < property().scenarios.size(); i++) if (!strcmp(property().scenarios[i].name, b)) sp.scenario = (int)i; }
        else if (k == "runseed") sp.seed = strtoull(b, nullptr, 10);
        else if (k == "index") sp.index = atoi(b);
        else if (k == "class") cls = b;
        else if (k == "mode") sp.replay = std::string(b) != "seed";
        else if (k == "skip") sp.skip.push_back(atoi(b));
        else if (k == "preempt" || k == "forced") { Ev e; e.kind = k == "preempt" ? EV_PREEMPT : EV_FORCED; e.at = strtoull(b, nullptr, 10); e.a = atoi(c); e.param = 0; sp.trace.push_back(e); }
        else if (k == "fault") { Ev e; e.kind = EV_FAULT; e.a = 0; for (int i = 0; i < F_MAX; i++) if (!strcmp(fault_name[i], b)) e.a = i; e.at = strtoull(c, nullptr, 10); e.param = strtoull(d, nullptr, 10); sp.trace.push_back(e); }
    }
    fclose(f);
    return sp.scenario >= 0;
}
static bool still(Shared* sh, const Spec& sp, bool quick, const std::string& cls) { execute(sh, sp, quick); return sh->status == 2 && cls == sh->cls; }

static void ddmin_events(Shared* sh, Spec& sp, bool quick, const std::string& cls, double until) {
    size_t n = 2;
    while (sp.trace.size() >= 1 && now() < until) {
        size_t len = (sp.trace.size() + n - 1) / n; bool red = false;
        for (size_t i = 0; i < sp.trace.size() && now() < until; i += len) {
            Spec t = sp; t.trace.erase(t.trace.begin() + i, t.trace.begin() + std::min(i + len, sp.trace.size()));
            if (still(sh, t, quick, cls)) { sp = t; red = true; n = std::max<size_t>(2, n - 1); break; }
        }
        if (!red) { if (len <= 1) break; n = std::min(n * 2, sp.trace.size()); }
    }
}
}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
    u64 vseed = 1; bool quick = true; std::string replay, evidence, outdir = "."; int workers = 8; int nruns = 0; double secs = 0; int only = -1; i64 oneidx = -1; bool selftest = false; std::string onlyname, knownpath = "/dev/null";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") vseed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") quick = false;
        else if (a == "--replay") replay = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--out") outdir = val();
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--runs") nruns = atoi(val().c_str());
        else if (a == "--seconds") secs = atof(val().c_str());
        else if (a == "--scenario") onlyname = val();
        else if (a == "--one") oneidx = atoll(val().c_str());
        else if (a == "--selftest") selftest = true;
        else if (a == "--known") { knownpath = val(); load_known(knownpath.c_str()); }
    }
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC") && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) {    // same addresses in every process, where the kernel allows it
        setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv);
    }
    Property& P = property();
    for (size_t i = 0; i < P.scenarios.size(); i++) if (onlyname == P.scenarios[i].name) only = (int)i;
    if (!nruns) nruns = quick ? P.quick_runs : P.thorough_runs;
    if (secs <= 0) secs = quick ? P.quick_seconds : P.thorough_seconds;
    if (!quick) g_timeout = 180;
    double t0 = now();
    setvbuf(stdout, nullptr, _IOLBF, 0);

    if (!replay.empty()) {
        Shared* sh = map_shared(); Spec sp; std::string cls;
        if (!read_replay(replay.c_str(), sp, cls)) { fprintf(stderr, "bad replay file\n"); return 2; }
        execute(sh, sp, quick);
        printf("replay: status %d class %s hash %016llx: %s\n", sh->status, sh->cls, (unsigned long long)sh->hash, sh->msg);
        if (sh->status == 2) { if (cls != sh->cls) printf("note: recorded class was %s\n", cls.c_str()); printf("VIOLATION property=%s replay=%s\n", P.id, replay.c_str()); return 1; }
        return sh->status == 1 ? 0 : 2;
    }
    auto seed_of = [&](int i) { return mix(mix(vseed, 0xC0FFEE), i); };
    if (oneidx >= 0) {
        Shared* sh = map_shared(); Spec sp; sp.seed = seed_of((int)oneidx); sp.index = (int)oneidx; sp.replay = false; sp.scenario = only >= 0 ? only : pick_scenario(sp.seed);
        double a = now(); execute(sh, sp, quick);
        printf("run %lld scenario %s status %d cls %s hash %016llx steps %llu switches %llu faults %llu time %.3f\n msg %s\n notes %s\n", (long long)oneidx, sh->scenario, sh->status, sh->cls, (unsigned long long)sh->hash,
               (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->faults, now() - a, sh->msg, sh->notes);
        return sh->status == 1 ? 0 : sh->status == 2 ? 1 : 2;
    }
    if (selftest) {     // determinism: print hashes of the first nruns runs (compare across processes)
        Shared* sh = map_shared();
        for (int i = 0; i < nruns; i++) { Spec sp; sp.seed = seed_of(i); sp.index = i; sp.replay = false; sp.scenario = only >= 0 ? only : pick_scenario(sp.seed); execute(sh, sp, quick); printf("%d %d %016llx\n", i, sh->status, (unsigned long long)sh->hash); }
        return 0;
    }

    // ---- search
    std::vector<Meta*> metas; std::vector<Shared*> shs; std::vector<pid_t> pids;
    Meta* mbase = (Meta*)mmap(nullptr, sizeof(Meta) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int w = 0; w < workers; w++) { metas.push_back(mbase + w); shs.push_back(map_shared()); mbase[w].viol_index = -1; }
    for (int w = 0; w < workers; w++) {
        pid_t p = fork();
        if (p == 0) {
            cpu_set_t cs; CPU_ZERO(&cs); cpu_set_t have; CPU_ZERO(&have);
            if (sched_getaffinity(0, sizeof have, &have) == 0) { int n = CPU_COUNT(&have), k = 0; for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &have)) { if (k++ == w % n) { CPU_SET(c, &cs); break; } } sched_setaffinity(0, sizeof cs, &cs); }
            Meta* m = metas[w]; Shared* sh = shs[w];
            for (int i = w; i < nruns && now() - t0 < secs && !(stop[0] && (stop[0] >= 8 || now() - *(volatile double*)(stop + 2) > 2)); i += workers) {
                Spec sp; sp.seed = seed_of(i); sp.index = i; sp.replay = false; sp.scenario = only >= 0 ? only : pick_scenario(sp.seed);
                execute(sh, sp, quick);
                m->runs++; m->scen[sp.scenario]++;
                m->steps += sh->steps; m->switches += sh->switches; m->forced += sh->forced; m->regions += sh->regions; m->conflicts += sh->conflicts; m->faults += sh->faults;
                if (sh->steps > m->maxsteps) m->maxsteps = sh->steps;
                for (int k = 0; k < F_MAX; k++) m->fc[k] += sh->fault_count[k];
                if ((sh->switches || sh->faults || sh->marked) && m->nsig < (1 << 20)) m->sig[m->nsig++] = mix(sh->whash, sh->hash);
                if (sh->switches && m->ndist < (1 << 20)) m->sch[m->ndist++] = sh->schash;
                if (sh->status == 3) { m->err++; snprintf(m->err_msg, sizeof m->err_msg, "run %d: %s", i, sh->msg); }
                if (sh->status == 2) {
                    // a violation that does not repeat (code that reads indeterminate memory) is no evidence: look for one that does
                    char c1[64]; snprintf(c1, sizeof c1, "%s", sh->cls); u64 h1 = sh->hash; execute(sh, sp, quick);
                    if (sh->status != 2 || sh->hash != h1 || strcmp(c1, sh->cls)) { m->flaky++; snprintf(m->err_msg, sizeof m->err_msg, "run %d: violation (%s) does not repeat", i, c1); continue; }
                    if (m->nviol < 16) { auto& v = m->viol[m->nviol]; v.seed = sp.seed; v.index = i; v.scen = sp.scenario; snprintf(v.cls, 64, "%s", sh->cls); m->nviol++; }
                    if (!stop[0]) *(volatile double*)(stop + 2) = now(); __sync_fetch_and_add((int*)stop, 1);   // a few more candidates, then stop
                    continue;
                }
                if (sh->status == 1 && (i / workers) % 16 == 3) { u64 h = sh->hash; execute(sh, sp, quick); m->double_runs++; if (sh->hash != h || sh->status != 1) { m->nondet++; snprintf(m->err_msg, sizeof m->err_msg, "run %d not reproducible (status %d %s %s)", i, sh->status, sh->cls, sh->msg); } }
            }
            _exit(0);
        }
        pids.push_back(p);
    }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }

    // ---- aggregate
    u64 runs = 0, steps = 0, sw = 0, forced = 0, regions = 0, confl = 0, faults = 0, dbl = 0, maxsteps = 0; u64 fc[F_MAX] = {0}; u64 scen[64] = {0}; int nondet = 0, err = 0; std::string emsg;
    std::unordered_set<u64> sigs, schs; std::map<std::string, u64> ctr;
    struct V { int index; u64 seed; int scen; std::string cls; }; std::vector<V> viols;
    for (int w = 0; w < workers; w++) {
        Meta* m = metas[w]; runs += m->runs; steps += m->steps; sw += m->switches; forced += m->forced; regions += m->regions; confl += m->conflicts; faults += m->faults; dbl += m->double_runs; nondet += m->nondet + m->flaky; err += m->err; maxsteps = std::max(maxsteps, (u64)m->maxsteps);
        if (m->err_msg[0]) emsg = m->err_msg;
        for (int k = 0; k < F_MAX; k++) fc[k] += m->fc[k];
        for (int k = 0; k < 64; k++) scen[k] += m->scen[k];
        for (int k = 0; k < m->nsig; k++) sigs.insert(m->sig[k]);
        for (int k = 0; k < m->ndist; k++) schs.insert(m->sch[k]);
        for (int k = 0; k < shs[w]->nctr; k++) ctr[shs[w]->ctr[k].name] += shs[w]->ctr[k].n;
        for (int k = 0; k < m->nviol; k++) { V v; v.index = m->viol[k].index; v.seed = m->viol[k].seed; v.scen = m->viol[k].scen; v.cls = m->viol[k].cls; viols.push_back(v); }
    }
    std::sort(viols.begin(), viols.end(), [](const V& a, const V& b) { return a.index < b.index; });
    double tsearch = now() - t0;

    for (auto& c : ctr) if (c.first.compare(0, 6, "known:") == 0) printf("KNOWN-FINDING: property=%s %s\n", P.id, g_known[c.first.substr(6)].c_str());
    int verdict = 0; std::string rpath;
    Shared* sh = map_shared();
    std::string vmsg;
    for (const V& v : viols) {
        Spec sp; sp.seed = v.seed; sp.index = v.index; sp.scenario = v.scen; sp.replay = false;
        execute(sh, sp, quick); u64 h1 = sh->hash; bool ok1 = sh->status == 2;
        execute(sh, sp, quick); if (!ok1 || sh->status != 2 || sh->hash != h1) { fprintf(stderr, "sim: violation of run %d did not reproduce, discarded\n", v.index); nondet++; continue; }
        std::string cls = sh->cls; int first_maxop = sh->maxop;
        Spec rp = sp; rp.replay = true; rp.trace.assign(sh->ev, sh->ev + sh->nev);
        rp.trace.erase(std::remove_if(rp.trace.begin(), rp.trace.end(), [](const Ev& e) { return e.kind == EV_FAULT && e.a >= 1000; }), rp.trace.end());
        bool from_trace = !sh->ev_overflow && still(sh, rp, quick, cls);
        size_t before = rp.trace.size();
        if (from_trace) {
            double until = now() + (quick ? 20 : 60);
            // empty schedule first, then whole workload operations, then single events
            { Spec t = rp; t.trace.clear(); if (still(sh, t, quick, cls)) rp = t; }
            int maxop = first_maxop; for (int k = 0; k <= maxop && k < 64 && now() < until; k++) { Spec t = rp; t.skip.push_back(k); if (still(sh, t, quick, cls)) rp = t; }
            ddmin_events(sh, rp, quick, cls, until);
            still(sh, rp, quick, cls);
        } else { rp = sp; execute(sh, rp, quick); }
        vmsg = sh->msg;
        char path[512]; snprintf(path, sizeof path, "%s/%s-%llu-%d.replay", outdir.c_str(), P.id, (unsigned long long)vseed, v.index);
        if (from_trace) { std::vector<Ev> full(sh->ev, sh->ev + sh->nev); Spec w2 = rp; w2.trace = full; write_replay(path, w2, sh, vseed); }
        else {
            // trace too long to replay explicitly: the seed alone is the replay
            write_replay(path, rp, sh, vseed);
            printf("note: replay by seed only\n");
        }
        // fresh process
        char exe[512]; ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[el > 0 ? el : 0] = 0;
        pid_t p = fork();
        if (p == 0) {
            int fd = open("/dev/null", O_RDWR); dup2(fd, 1);
            execl(exe, exe, "--replay", path, quick ? "--quick" : "--thorough", "--known", knownpath.c_str(), (char*)nullptr);
            _exit(2);
        }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { fprintf(stderr, "sim: fresh-process replay of %s did not reproduce\n", path); nondet++; continue; }
        printf("violation class %s in run %d (seed %llu, scenario %s), trace minimised from %zu to %d events: %s\nworkload: %s\n", cls.c_str(), v.index, (unsigned long long)v.seed, P.scenarios[v.scen].name, before, sh->nev, vmsg.c_str(), sh->notes);
        printf("VIOLATION property=%s replay=%s\n", P.id, path);
        verdict = 1; rpath = path;
        break;
    }
    if (!verdict && (nondet || err || runs == 0)) { fprintf(stderr, "sim: check error: nondeterministic=%d errors=%d runs=%llu %s\n", nondet, err, (unsigned long long)runs, emsg.c_str()); verdict = 2; }

    // ---- samples: a few actual runs written out
    std::string samples;
    for (int i = 0, got = 0; i < 12 && got < 3; i++) {
        Spec sp; sp.seed = seed_of(i); sp.index = i; sp.replay = false; sp.scenario = only >= 0 ? only : pick_scenario(sp.seed);
        if (i >= (int)runs) break;
        execute(sh, sp, quick);
        char b[1400]; std::string tr;
        for (int k = 0; k < sh->nev && k < 6; k++) { char e[96]; const Ev& x = sh->ev[k]; snprintf(e, sizeof e, "%s%s@%llu->%llu", tr.empty() ? "" : " ", x.kind == EV_PREEMPT ? "preempt" : x.kind == EV_FORCED ? "forced" : fault_name[x.a % 1000], (unsigned long long)x.at, (unsigned long long)(x.kind == EV_FAULT ? x.param : x.a)); tr += e; }
        std::string nt = sh->notes; if (nt.size() > 400) nt.resize(400);
        snprintf(b, sizeof b, "%s{\"run\":%d,\"run_seed\":\"%llu\",\"scenario\":\"%s\",\"workload\":\"%s\",\"steps\":%llu,\"switches\":%llu,\"faults\":%llu,\"first_events\":\"%s\",\"event_hash\":\"%016llx\"}", samples.empty() ? "" : ",", i, (unsigned long long)sp.seed, sh->scenario, jesc(nt).c_str(),
                 (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->faults, jesc(tr).c_str(), (unsigned long long)sh->hash);
        samples += b; got++;
    }
    double wall = now() - t0;
    if (!evidence.empty()) {
        FILE* f = fopen(evidence.c_str(), "w"); if (!f) { perror(evidence.c_str()); return 2; }
        auto list = [&](const std::vector<std::string>& v) { std::string o; for (auto& s : v) { if (!o.empty()) o += ","; o += "\"" + jesc(s) + "\""; } return o; };
        fprintf(f, "{\"property\":\"%s\",\"tier\":\"%s\",\"seed\":%llu,\"level\":\"%s\",\"coverage\":{", P.id, quick ? "quick" : "thorough", (unsigned long long)vseed, P.level);
        fprintf(f, "\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"samples\":[%s],", (unsigned long long)runs, sigs.size(), jesc(P.rule).c_str(), samples.c_str());
        fprintf(f, "\"simulated_runs\":%llu,\"seeds_per_hour\":%.0f,\"simulated_steps\":%llu,\"longest_run_steps\":%llu,\"simulated_time_s\":%.3f,\"simulated_time_note\":\"one instrumented memory access of library code = one step = 50 ns of simulated time\",", (unsigned long long)runs, runs / (tsearch / 3600 + 1e-9), (unsigned long long)steps, (unsigned long long)maxsteps, steps * 5e-8);
        fprintf(f, "\"context_switches\":%llu,\"forced_scheduling_decisions\":%llu,\"parallel_regions\":%llu,\"conflicting_accesses\":%llu,\"distinct_interleavings\":%zu,\"distinct_interleavings_measure\":\"distinct hashes of the full sequence of (step, chosen thread) scheduling decisions\",", (unsigned long long)sw, (unsigned long long)forced, (unsigned long long)regions, (unsigned long long)confl, schs.size());
        fprintf(f, "\"faults_injected_total\":%llu,\"faults_by_kind\":{", (unsigned long long)faults);
        bool first = true; for (int k = 1; k < F_MAX; k++) if (fc[k]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_name[k], (unsigned long long)fc[k]); first = false; }
        fprintf(f, "},\"runs_by_scenario\":{"); first = true;
        for (size_t k = 0; k < P.scenarios.size(); k++) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", P.scenarios[k].name, (unsigned long long)scen[k]); first = false; }
        fprintf(f, "},\"probes\":{"); first = true;
        for (auto& c : ctr) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(f, "},\"determinism_reruns\":%llu,\"determinism_mismatches\":%d,\"real_components\":[%s],\"stub_components\":[%s]},", (unsigned long long)dbl, nondet, list(P.real_components).c_str(), list(P.stub_components).c_str());
        fprintf(f, "\"assumptions\":[%s],\"wall_s\":%.2f,\"violations\":%d}\n", list(P.assumptions).c_str(), wall, verdict == 1 ? 1 : 0);
        fclose(f);
    }
    printf("%s: %llu runs, %llu steps, %llu switches, %llu faults, %zu distinct, %.1f s, verdict %d\n", P.id, (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)faults, sigs.size(), wall, verdict);
    return verdict;
}
