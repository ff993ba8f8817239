// S00: the simulator's own synchronisation primitives. "ok_*" scenarios are correctly synchronised and
// must be quiet; "bad_*" scenarios are wrong and must be reported (tools/selftest.sh runs both).
#include "common.h"
#include <mutex>
#include <shared_mutex>
#include <condition_variable>
#include <thread>
#include <future>
#include <atomic>
#include <chrono>
#include <map>
#include <omp.h>
using namespace sim;
static std::vector<int> V; static int X;
static void want(int n) { if (X != n) fail("lost-update", "%d updates of %d seen", X, n); }
static void callers(int n, std::function<void(int)> f) { for (int i = 0; i < n; i++) spawn([f, i] { Lib l; f(i); }); join_all(); }
static void prep(Run& R) { heap_policy(R.rng.next()); X = 0; default_sched(R.rng); if (R.rng.chance(0.5)) sched().mean_gap = 3; }
static void ok_mutex(Run& R) { prep(R); static std::mutex m; callers(4, [](int) { for (int i = 0; i < 10; i++) { std::lock_guard<std::mutex> g(m); int t = X; X = t + 1; } }); want(40); mark(); }
static void bad_mutex(Run& R) { prep(R); static std::mutex m; callers(4, [](int) { for (int i = 0; i < 10; i++) { int t; { std::lock_guard<std::mutex> g(m); t = X; } std::lock_guard<std::mutex> g(m); X = t + 1; } }); want(40); mark(); }
static void ok_try(Run& R) { prep(R); static std::mutex m; callers(4, [](int) { for (int i = 0; i < 10; i++) { while (!m.try_lock()) std::this_thread::yield(); int t = X; X = t + 1; m.unlock(); } }); want(40); mark(); }
static void ok_rec(Run& R) { prep(R); static std::recursive_mutex m; callers(3, [](int) { for (int i = 0; i < 6; i++) { std::lock_guard<std::recursive_mutex> g(m); { std::lock_guard<std::recursive_mutex> h(m); X = X + 1; } int t = X; X = t + 1; } }); want(36); mark(); }
static void ok_shared(Run& R) { prep(R); static std::shared_mutex m; callers(4, [](int c) { for (int i = 0; i < 6; i++) { if (c & 1) { std::shared_lock<std::shared_mutex> g(m); int t = X; if (t != X) { NoLib n; fail("torn", "read"); } } else { std::unique_lock<std::shared_mutex> g(m); int t = X; X = t + 1; } } }); want(12); mark(); }
static void ok_timed(Run& R) { prep(R); static std::timed_mutex m; callers(3, [](int) { for (int i = 0; i < 4; i++) { if (m.try_lock_for(std::chrono::seconds(1000))) { int t = X; X = t + 1; m.unlock(); } } }); want(12); mark(); }
static void bad_deadlock(Run& R) { prep(R); static std::mutex a, b; callers(2, [](int c) { for (int i = 0; i < 5; i++) { std::lock_guard<std::mutex> g(c ? a : b); std::lock_guard<std::mutex> h(c ? b : a); X++; } }); mark(); }
static void ok_cond(Run& R) { prep(R); static std::mutex m; static std::condition_variable cv; callers(3, [](int c) { for (int i = 0; i < 5; i++) { std::unique_lock<std::mutex> g(m); cv.wait(g, [&] { return X % 3 == c; }); X++; cv.notify_all(); } }); want(15); mark(); }
static void ok_condtimed(Run& R) { prep(R); static std::mutex m; static std::condition_variable cv; callers(2, [](int c) { std::unique_lock<std::mutex> g(m); if (c) { cv.wait_for(g, std::chrono::milliseconds(5)); X++; } else { X++; } }); want(2); mark(); }
static void ok_once(Run& R) { prep(R); static std::once_flag f; callers(4, [](int) { std::call_once(f, [] { int t = X; X = t + 1; }); if (X != 1) { NoLib n; fail("once", "%d", X); } }); want(1); mark(); }
static int init() { int t = X; X = t + 1; return X; }
static void ok_static(Run& R) { prep(R); callers(4, [](int) { static const int k = init(); static const std::vector<int> v(3, k); if (v[2] != 1) { NoLib n; fail("static", "%d", v[2]); } }); want(1); mark(); }
static void ok_async(Run& R) { prep(R); int r = 0; { Lib l; auto f = std::async(std::launch::async, [] { int s = 0; for (int i = 0; i < 10; i++) s += i; return s; }); auto g = std::async(std::launch::async, [] { return 1; }); std::thread t([] { X = 5; }); r = f.get() + g.get(); t.join(); } if (r != 46) fail("async", "%d", r); want(5); mark(); }
static void ok_atomic(Run& R) { prep(R); static std::atomic<int> a; a = 0; callers(4, [](int) { for (int i = 0; i < 10; i++) a++; }); X = a; want(40); mark(); }
static void ok_spin(Run& R) { prep(R); static std::atomic_flag f = ATOMIC_FLAG_INIT; callers(3, [](int) { for (int i = 0; i < 5; i++) { while (f.test_and_set()) {} int t = X; X = t + 1; f.clear(); } }); want(15); mark(); }
static void ok_sleep(Run& R) { prep(R); callers(3, [](int c) { std::this_thread::sleep_for(std::chrono::milliseconds(c * 100)); X = c; }); mark(); if (X != 2) fail("sleep", "woke out of order: %d", X); }
static void ok_omp(Run& R) { prep(R); set_threads(R.rng.range(1, 6)); { Lib l; int s = 0;
#pragma omp parallel for reduction(+:s)
    for (int i = 0; i < 20; i++) s += i;
#pragma omp parallel for
    for (int i = 0; i < 20; i++) {
#pragma omp critical
        { int t = X; X = t + 1; }
    }
    int o = 0; bool ok = true;
#pragma omp parallel for ordered schedule(dynamic)
    for (int i = 0; i < 10; i++) {
#pragma omp ordered
        { if (o != i) ok = false; o++; }
    }
    NoLib n; if (s != 190 || !ok) fail("omp", "%d %d", s, ok); } want(20); mark(); }
static int fib(int n) { if (n < 2) return n; int a, b;
#pragma omp task shared(a)
    a = fib(n - 1);
#pragma omp task shared(b)
    b = fib(n - 2);
#pragma omp taskwait
    return a + b; }
static void ok_task(Run& R) { prep(R); set_threads(R.rng.range(1, 5)); int r = 0, q[12] = {0}; { Lib l;
#pragma omp parallel
#pragma omp single
    { r = fib(7); for (int i = 0; i < 12; i++) {
#pragma omp task firstprivate(i)
        q[i] = i; } }
#pragma omp parallel
#pragma omp single
#pragma omp taskloop
    for (int i = 0; i < 12; i++) q[i]++;
    } if (r != 13) fail("task", "%d", r); for (int i = 0; i < 12; i++) if (q[i] != i + 1) fail("task", "%d %d", i, q[i]); mark(); }
static void bad_task(Run& R) { prep(R); set_threads(R.rng.range(2, 5)); int q[12] = {0}, sum = 0; { Lib l;
#pragma omp parallel
#pragma omp single
    { for (int i = 0; i < 12; i++) {
#pragma omp task firstprivate(i) shared(q)
        q[i] = i + 1; }
      for (int i = 0; i < 12; i++) sum += q[i];      // no taskwait
    } } if (sum != 78) fail("task", "%d", sum); mark(); }
static void ok_sections(Run& R) { prep(R); set_threads(R.rng.range(1, 4)); int a = 0, b = 0, c = 0; { Lib l;
#pragma omp parallel sections
    {
#pragma omp section
        a = 1;
#pragma omp section
        b = 2;
#pragma omp section
        c = 3;
    }
#pragma omp parallel for schedule(static, 3) collapse(2)
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) {
#pragma omp atomic
        X++; }
#pragma omp parallel for schedule(guided)
    for (unsigned long i = 0; i < 25; i++) {
#pragma omp atomic
        X++; }
    } if (a + b + c != 6) fail("sections", "%d", a + b + c); want(50); mark(); }
Property& sim::property() {
    static Property P; P.id = "S00"; P.level = "exploration"; P.rule = "self test";
    P.scenarios = {{"ok_mutex", ok_mutex, 1}, {"ok_try", ok_try, 1}, {"ok_rec", ok_rec, 1}, {"ok_shared", ok_shared, 1}, {"ok_timed", ok_timed, 1}, {"ok_cond", ok_cond, 1}, {"ok_condtimed", ok_condtimed, 1}, {"ok_once", ok_once, 1}, {"ok_static", ok_static, 1}, {"ok_async", ok_async, 1}, {"ok_atomic", ok_atomic, 1}, {"ok_spin", ok_spin, 1}, {"ok_sleep", ok_sleep, 1}, {"ok_omp", ok_omp, 1}, {"ok_task", ok_task, 1}, {"ok_sections", ok_sections, 1},
        {"bad_mutex", bad_mutex, 1}, {"bad_deadlock", bad_deadlock, 1}, {"bad_task", bad_task, 1}};
    P.quick_runs = 2000; P.thorough_runs = 20000; P.quick_seconds = 10; P.thorough_seconds = 60;
    return P;
}
