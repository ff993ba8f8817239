// C01: sparse matrix-vector product under every team size and schedule.
#include "matgen.h"
using namespace sim;
typedef std::vector<double> DV;

template <class T> static void check_rows(const MatModel& m, const std::vector<T>& x, const std::vector<T>& y, const char* who) {
    if ((int)y.size() != m.rows) fail("wrong-result", "%s: product has %zu entries for %d rows", who, y.size(), m.rows);
    double eps = sizeof(T) == 4 ? 3e-6 : 1e-12;
    for (int i = 0; i < m.rows; i++) {
        double s = 0, a = 0; for (auto& e : m.r[i]) { double t = (double)(T)e.second * (double)x[e.first]; s += t; a += std::fabs(t); }
        if (!(std::fabs((double)y[i] - s) <= eps * a * (1 + m.r[i].size()) + 0.0)) fail("wrong-result", "%s: row %d of the product is %.17g, the row sum is %.17g (%zu entries)", who, i, (double)y[i], s, m.r[i].size());
    }
}
template <class T> static void product_runs(Run& R, int lo, int hi, bool callers) {
    Rng& g = R.rng;
    heap_policy(g.next());
    int rows = g.range(lo, hi), cols = g.chance(0.7) ? rows : g.range(1, hi > 400 ? 400 : hi);
    if (lo == 0 && g.chance(0.05)) rows = 0;
    if (g.chance(0.3)) { int t = g.range(1, 8); rows = std::max(1, rows / t * t + g.range(-1, 1)); }
    int kind = (int)g.below(6); double per = hi > 400 ? g.uniform(0.5, 4) : g.uniform(0.5, 10);
    MatModel m = gen_matrix(g, rows, cols, kind, per);
    int how = (int)g.below(2);
    Rng g2(g.next());
    CSR<T> A = to_csr<T>(m, g2, how);
    if (g.chance(0.25) && m.nnz() < 400 && rows > 0) {         // arithmetic on the matrix first
        int op = (int)g.below(4); MatModel m2 = gen_matrix(g, rows, cols, 0, 2); 
        // (values are model-tracked in T arithmetic)
        if (op == 0) { CSR<T> B = to_csr<T>(m2, g2, 1); CSR<T> C = A + B; for (int i = 0; i < rows; i++) for (auto& e : m2.r[i]) m.r[i][e.first] = (T)m.r[i][e.first] + (T)e.second; 
            std::vector<T> x(cols); for (auto& v : x) v = (T)g.uniform(-1, 1); set_threads(g.range(1, 5)); default_sched(g); std::vector<T> y; { Lib l; y = C * x; } check_rows<T>(m, x, y, "sum of matrices"); return; }
        if (op == 1) { CSR<T> B = to_csr<T>(m2, g2, 1); CSR<T> C = A - B; for (int i = 0; i < rows; i++) for (auto& e : m2.r[i]) m.r[i][e.first] = (T)m.r[i][e.first] - (T)e.second;
            std::vector<T> x(cols); for (auto& v : x) v = (T)g.uniform(-1, 1); set_threads(g.range(1, 5)); default_sched(g); std::vector<T> y; { Lib l; y = C * x; } check_rows<T>(m, x, y, "difference of matrices"); return; }
    }
    int ncall = callers ? g.range(2, 3) : 1, nprod = hi > 400 ? 1 : g.range(1, 3);
    std::vector<std::vector<T> > xs;
    for (int c = 0; c < ncall * nprod; c++) { std::vector<T> x(cols); int mode = (int)g.below(4); for (auto& v : x) v = mode == 0 ? (T)1 : (T)g.uniform(-3, 3); xs.push_back(x); }
    std::vector<int> teams; for (int c = 0; c < ncall; c++) teams.push_back(callers ? g.range(1, 3) : g.pick(std::vector<int>{1, 2, 2, 3, 4, 4, 5, 7, 8, 8, 12, 16}));
    note("%dx%d nnz=%zu kind=%d how=%d T=%s callers=%d products=%d team=%d", rows, cols, m.nnz(), kind, how, sizeof(T) == 4 ? "float" : "double", ncall, nprod, teams[0]);
    std::vector<Out> want;
    for (int k = 0; k < ncall * nprod; k++) want.push_back(solo([&, k](Out& o) { std::vector<T> y; { Lib l; y = A * xs[k]; } put(o, y); }, 1));
    default_sched(g);
    if (hi > 400) sched().mean_gap = std::max(sched().mean_gap, 300), sched().p_race = std::min(sched().p_race, 0.05);
    auto caller = [&](int c) {
        set_threads(teams[c]);
        for (int p = 0; p < nprod; p++) {
            int k = c * nprod + p;
            if (!enabled(k)) continue;
            std::vector<T> y;
            std::vector<T> xc = xs[k];
            { Lib l; y = A * xs[k]; }
            if (xc != xs[k]) fail("input-changed", "the product changed its operand");
            Out o; put(o, y);
            check_rows<T>(m, xs[k], y, callers ? "one of several callers" : "product");
            if (o != want[k]) fail("schedule-dependent", "product with %d threads differs from the one-thread product: %s", teams[c], diff(want[k], o).c_str());
            for (u64 v : o.v) mix_hash(v);
        }
    };
    if (callers) { for (int c = 0; c < ncall; c++) spawn([&, c] { caller(c); }); join_all(); } else caller(0);
    if (rows && teams[0] > rows) probe("more_threads_than_rows");
    if (rows % std::max(1, teams[0])) probe("rows_not_divisible_by_team");
    bool empty = false; for (auto& r : m.r) if (r.empty()) empty = true;
    if (empty) probe("matrix_with_empty_rows");
    if (rows > 1000) probe("over_1000_rows");
    if (m.nnz() > 10000) probe("over_10000_entries");
}
// conversions between the two sparse forms done by the library while worker threads are available
static void convert(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); bool callers = g.chance(0.3); int big = g.chance(0.4) ? 300 : 60;
    int nc = callers ? 2 : 1; std::vector<MatModel> ms; std::vector<LILCSR<double> > ls; std::vector<int> team; std::vector<DV> xs; bool share = callers && g.chance(0.5);
    for (int c = 0; c < nc; c++) {
        int n = g.range(1, big), k = g.range(1, big); MatModel m = gen_matrix(g, n, k, (int)g.below(6), big > 60 ? 2 : 4); if (share && c) m = ms[0];
        Rng g2(g.next()); ms.push_back(m); ls.push_back(to_lil<double>(m, g2)); xs.push_back(gen_vec(g, m.cols)); team.push_back(g.pick(std::vector<int>{1, 2, 2, 3, 4, 4, 8}));
    }
    note("%d callers convert %dx%d, team %d%s", nc, ms[0].rows, ms[0].cols, team[0], share ? ", shared source" : "");
    default_sched(g);
    auto work = [&](int c) {
        const MatModel& m = ms[c]; LILCSR<double>& L = ls[share ? 0 : c]; set_threads(team[c]); DV y, z, u;
        { Lib l; CSR<double> A(L); y = A * xs[c]; LILCSR<double> B(A); z = B * xs[c]; CSR<double> C(B), D = C * 1.0; u = D * xs[c]; }
        check_rows<double>(m, xs[c], y, "row-list to compressed"); check_rows<double>(m, xs[c], z, "compressed to row-list"); check_rows<double>(m, xs[c], u, "there and back");
        Out o; put(o, y); for (u64 v : o.v) mix_hash(v);
    };
    if (callers) { for (int c = 0; c < nc; c++) spawn([&, c] { work(c); }); join_all(); } else work(0);
    if (team[0] > 1) probe("conversion_with_worker_threads");
}
// few long rows: more entries per row than rows
static void wide(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); int n = g.range(1, 10), c = g.range(60, 700); MatModel m(n, c); double fill = g.uniform(0.2, 1);
    for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) if (g.chance(fill)) m.r[i][j] = g.uniform(-2, 2);
    Rng g2(g.next()); CSR<double> A = to_csr<double>(m, g2, 1); DV x = gen_vec(g, c); Out want = solo([&](Out& o) { DV y; { Lib l; y = A * x; } put(o, y); }, 1);
    int team = g.range(2, 8); set_threads(team); default_sched(g); note("wide %dx%d nnz=%zu team=%d", n, c, m.nnz(), team);
    DV y; { Lib l; y = A * x; } check_rows<double>(m, x, y, "wide product"); Out o; put(o, y); if (o != want) fail("schedule-dependent", "wide product with %d threads differs from the one-thread product: %s", team, diff(want, o).c_str());
    for (u64 v : o.v) mix_hash(v); probe("over_64_entries_per_row");
}
static void small_d(Run& R) { product_runs<double>(R, 0, 40, false); }
static void small_f(Run& R) { product_runs<float>(R, 1, 60, false); }
static void mid_d(Run& R) { product_runs<double>(R, 40, 400, false); }
static void large_d(Run& R) { product_runs<double>(R, 900, R.rng.chance(0.2) ? 20000 : 4000, false); }
static void callers_d(Run& R) { product_runs<double>(R, 1, 60, true); }
static void callers_mid(Run& R) { product_runs<double>(R, 60, 300, true); }
// the matrix is modified between products and the number of threads changes from product to product
static void history(Run& R) {
    Rng& g = R.rng; heap_policy(g.next());
    int n = g.range(1, 30), c = g.range(1, 30); MatModel m = gen_matrix(g, n, c, (int)g.below(5), 2);
    Rng g2(g.next()); CSR<double> A = to_csr<double>(m, g2, (int)g.below(2));
    default_sched(g);
    int nops = g.range(2, 12); note("history %dx%d ops=%d", n, c, nops);
    for (int k = 0; k < nops; k++) {
        int what = (int)g.below(4); int i = (int)g.below(n), j = (int)g.below(c); double v = g.uniform(-3, 3); int th = g.range(1, 8);
        std::vector<double> x = gen_vec(g, c);
        if (!enabled(k)) continue;
        if (what < 2) { bool was = m.r[i].count(j); bool r; { Lib l; r = A.set(i, j, v); } m.r[i][j] = v; (void)was; (void)r; double q; { Lib l; q = A.get(i, j); } if (q != v) fail("wrong-result", "get after set returned %.17g for %.17g", q, v); }
        else { set_threads(th); std::vector<double> y; { Lib l; y = A * x; } check_rows<double>(m, x, y, "after modifications"); for (double d : y) { u64 u; memcpy(&u, &d, 8); mix_hash(u); } }
    }
}
// the sparse row-list matrix has its own product (serial); it must agree with the compressed one
static void lil(Run& R) {
    Rng& g = R.rng; heap_policy(g.next());
    int n = g.range(1, 60), c = g.range(1, 60); MatModel m = gen_matrix(g, n, c, (int)g.below(6), 3);
    Rng g2(g.next()); LILCSR<double> L = to_lil<double>(m, g2);
    std::vector<double> x = gen_vec(g, c); set_threads(g.range(1, 8)); default_sched(g);
    note("row-list %dx%d", n, c);
    std::vector<double> y; { Lib l; y = L * x; } check_rows<double>(m, x, y, "row-list product");
    CSR<double> A(L); std::vector<double> z; { Lib l; z = A * x; } check_rows<double>(m, x, z, "converted product");
    LILCSR<double> B(A); { Lib l; y = B * x; } check_rows<double>(m, x, y, "converted back");
}

Property& sim::property() {
    static Property P;
    P.id = "C01"; P.level = "exploration";
    P.rule = "Each run draws a sparse matrix (size, shape, fill, empty/dense rows, construction route), operand vectors, a team size 1..16, a schedule policy and team shortages from the run seed; the product is executed on simulated OpenMP threads and compared entry by entry with an independent row-sum model (tolerance) and bit by bit with the same product executed alone on one thread. Non-trivial: at least one context switch or injected team shortage inside the product; distinct by the hash of workload, schedule, faults and results.";
    P.scenarios = {{"small", small_d, 6}, {"small_float", small_f, 2}, {"mid", mid_d, 3}, {"large", large_d, 2}, {"callers", callers_d, 3}, {"callers_mid", callers_mid, 1}, {"history", history, 2}, {"rowlist", lil, 1}, {"convert", convert, 3}, {"wide", wide, 1}};
    P.real_components = {"src/LinearAlgebra/Models/CSR.h", "src/LinearAlgebra/Models/LILCSR.h (built from /repo, instrumented)"};
    P.stub_components = {"libgomp (simulated OpenMP runtime)", "operator new/delete (simulated heap)", "pthread scheduling (baton scheduler)"};
    P.assumptions = {"sequentially consistent memory: the simulator interleaves accesses, it does not reorder them", "preemption points are the compiler-instrumented memory accesses and runtime calls of library code"};
    P.quick_runs = 40000; P.thorough_runs = 4000000; P.quick_seconds = 25; P.thorough_seconds = 900;
    return P;
}
