// Random sparse matrices together with an independent model (row -> col -> value).
#pragma once
#include "common.h"
#include "LinearAlgebra/Models/CSR.h"
#include "LinearAlgebra/Models/LILCSR.h"

struct MatModel {
    int rows, cols; std::vector<std::map<int, double> > r;
    MatModel(int a = 0, int b = 0) : rows(a), cols(b), r(a) {}
    size_t nnz() const { size_t n = 0; for (auto& x : r) n += x.size(); return n; }
};
// structure kinds: 0 uniform random, 1 banded, 2 some empty rows, 3 one dense row, 4 power-law rows, 5 diagonal
inline MatModel gen_matrix(Rng& g, int rows, int cols, int kind, double per_row) {
    MatModel m(rows, cols);
    if (rows == 0 || cols == 0) return m;
    auto val = [&]() { double v = g.uniform(-2, 2); if (g.chance(0.05)) v *= 1e6; if (g.chance(0.05)) v *= 1e-6; return v; };
    int dense = (int)g.below(rows);
    for (int i = 0; i < rows; i++) {
        if (kind == 5) { m.r[i][i % cols] = val(); continue; }
        if (kind == 2 && g.chance(0.4)) continue;
        int k = (int)(per_row * (kind == 4 ? std::pow(g.uniform() + 0.02, -0.7) : 2 * g.uniform())) + (g.chance(0.5) ? 1 : 0);
        if (kind == 3 && i == dense) { for (int j = 0; j < cols; j++) if (cols < 400 || g.chance(0.2)) m.r[i][j] = val(); continue; }
        for (int q = 0; q < k; q++) { int j = kind == 1 ? std::min(cols - 1, std::max(0, i * cols / rows + g.range(-3, 3))) : (int)g.below(cols); m.r[i][j] = val(); }
    }
    return m;
}
template <class T> inline LILCSR<T> to_lil(const MatModel& m, Rng& g) {
    LILCSR<T> l(m.rows, m.cols);
    for (int i = 0; i < m.rows; i++) {
        std::vector<std::pair<int, double> > e(m.r[i].begin(), m.r[i].end());
        for (size_t a = e.size(); a > 1; a--) std::swap(e[a - 1], e[g.below(a)]);
        for (auto& x : e) l.set(i, x.first, (T)x.second);
    }
    return l;
}
template <class T> inline CSR<T> to_csr(const MatModel& m, Rng& g, int how) {
    if (how == 0 && m.nnz() < 400) {
        CSR<T> A(m.rows, m.cols);
        std::vector<std::pair<int, int> > e; for (int i = 0; i < m.rows; i++) for (auto& x : m.r[i]) e.push_back(std::make_pair(i, x.first));
        for (size_t a = e.size(); a > 1; a--) std::swap(e[a - 1], e[g.below(a)]);
        for (auto& x : e) A.set(x.first, x.second, (T)m.r[x.first].at(x.second));
        return A;
    }
    LILCSR<T> l = to_lil<T>(m, g);
    return CSR<T>(l);
}
// symmetric positive definite, diagonally dominant with random strength
inline MatModel gen_spd(Rng& g, int n, double per_row, double dom, bool symmetric = true) {
    MatModel m(n, n);
    for (int i = 0; i < n; i++) {
        int k = (int)(per_row * g.uniform() * 2);
        for (int q = 0; q < k; q++) { int j = g.chance(0.6) ? std::min(n - 1, std::max(0, i + g.range(-4, 4))) : (int)g.below(n); if (j == i) continue; double v = g.uniform(-1, 1); if (v == 0) v = 0.5; m.r[i][j] = v; if (symmetric) m.r[j][i] = v; }
    }
    for (int i = 0; i < n; i++) { double s = 0; for (auto& x : m.r[i]) if (x.first != i) s += std::fabs(x.second); m.r[i][i] = s * dom + g.uniform(0.1, 1.0); }
    if (symmetric && g.chance(0.5)) {       // badly scaled but still SPD: D A D
        std::vector<double> d(n); for (auto& x : d) x = std::pow(10.0, g.uniform(-1.5, 1.5));
        for (int i = 0; i < n; i++) for (auto& x : m.r[i]) x.second *= d[i] * d[x.first];
    }
    return m;
}
inline std::vector<double> gen_vec(Rng& g, int n) { std::vector<double> v(n); int k = (int)g.below(4); for (auto& x : v) { x = k == 0 ? g.uniform(-1, 1) : k == 1 ? (g.chance(0.3) ? g.uniform(-5, 5) : 0.0) : k == 2 ? 1.0 : g.uniform(-1, 1) * 1e3; } return v; }
