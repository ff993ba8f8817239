// Linear-algebra inputs shared by several catalogue parts.
#pragma once
#include "catalog.h"
#include <numeric>
#include <algorithm>
#include <iostream>
#include "matgen.h"
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Solvers/CG.h"
#include "LinearAlgebra/Solvers/Lanczos.h"
using namespace PANSFEM2;
inline void put(Out& o, const Vector<double>& v) { Vector<double>& w = const_cast<Vector<double>&>(v); o.i(w.SIZE()); for (int i = 0; i < w.SIZE(); i++) o.d(w(i)); }
inline void put(Out& o, const Matrix<double>& v) { Matrix<double>& w = const_cast<Matrix<double>&>(v); o.i(w.ROW()); o.i(w.COL()); for (int i = 0; i < w.ROW(); i++) for (int j = 0; j < w.COL(); j++) o.d(w(i, j)); }
inline void put(Out& o, const CSR<double>& m) { o.i(m.ROWS); o.i(m.COLS); for (int i = 0; i < m.ROWS; i++) for (int j = 0; j < m.COLS; j++) o.d(m.get(i, j)); }
inline void put(Out& o, const LILCSR<double>& m) { o.i(m.ROWS); o.i(m.COLS); for (int i = 0; i < m.ROWS; i++) for (int j = 0; j < m.COLS; j++) o.d(m.get(i, j)); }
// values of ordinary size, or all of one extreme magnitude, or spread over many orders of magnitude
struct Mag { int k; double f; Mag(Rng& g) : k(g.chance(0.8) ? 0 : g.range(1, 2)), f(std::pow(10.0, g.uniform(-7, 7))) {} double operator()(Rng& g) { return k == 0 ? g.uniform(-3, 3) : k == 1 ? f * g.uniform(-3, 3) : g.uniform(-3, 3) * std::pow(10.0, (double)g.range(-9, 9)); } };
inline Vector<double> rvec(Rng& g, int n) { Vector<double> v(n); Mag q(g); for (int i = 0; i < n; i++) v(i) = q(g); return v; }
inline Matrix<double> rmat(Rng& g, int r, int c) { Matrix<double> m(r, c); Mag q(g); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = q(g); return m; }
struct Sys { MatModel m; CSR<double> A, M; std::vector<double> b; Sys(const MatModel& mm, const CSR<double>& a, const CSR<double>& p, const std::vector<double>& bb) : m(mm), A(a), M(p), b(bb) {} };
inline std::shared_ptr<Sys> gen_sys(Rng& g, int nmax, bool symmetric) {
    int n = g.range(1, nmax); MatModel m = gen_spd(g, n, g.uniform(1, 3), g.uniform(1.0, 1.3), symmetric); Rng g2(g.next());
    CSR<double> A = to_csr<double>(m, g2, (int)g.below(2)); CSR<double> M = ILU0(A);
    std::vector<double> b(n); do { for (auto& x : b) x = g.chance(0.8) ? g.uniform(-2, 2) : 0.0; } while (std::inner_product(b.begin(), b.end(), b.begin(), 0.0) < 1e-3);
    return std::shared_ptr<Sys>(new Sys(m, A, M, b));
}
// zero, tiny or missing diagonal entries (legal inputs for everything that does not divide by them, defined results for everything that does)
inline void odd_diagonal(Rng& g, MatModel& m) { for (int i = 0; i < m.rows; i++) { int k = (int)g.below(6); if (k == 0) m.r[i][i] = 0; else if (k == 1) m.r[i][i] = g.uniform(-1, 1) * std::pow(10.0, -g.uniform(6, 20)); else if (k == 2) m.r[i].erase(i); } }
inline std::shared_ptr<Sys> odd_sys(Rng& g, int nmax, bool symmetric) {
    int n = g.range(1, nmax); MatModel m = gen_spd(g, n, g.uniform(1, 3), g.uniform(1.0, 1.3), symmetric), p = m; if (g.chance(0.7)) odd_diagonal(g, m); if (g.chance(0.7)) odd_diagonal(g, p); Rng g2(g.next());
    CSR<double> A = to_csr<double>(m, g2, (int)g.below(2)), M = to_csr<double>(p, g2, (int)g.below(2)); return std::shared_ptr<Sys>(new Sys(m, A, M, gen_vec(g, n)));
}
// the solvers, by number
static const char* const SOLVER[] = {"CG", "ScalingCG", "ILU0CG", "SORCG", "BiCGSTAB", "BiCGSTAB2", "ILU0BiCGSTAB", "ScalingBiCGSTAB"};
enum { NSOLVER = 8, NSYM = 4 };
template <class T> inline std::vector<T> call_solver(int k, CSR<T>& A, CSR<T>& M, std::vector<T>& b, int itr, T eps) {
    switch (k) {
        case 0: return CG(A, b, itr, eps);
        case 1: return ScalingCG(A, b, itr, eps);
        case 2: return ILU0CG(A, M, b, itr, eps);
        case 3: return SORCG(A, b, itr, eps, (T)1.2, 2, (T)1e-3);
        case 4: return BiCGSTAB(A, b, itr, eps);
        case 5: return BiCGSTAB2(A, b, itr, eps);
        case 6: return ILU0BiCGSTAB(A, M, b, itr, eps);
        default: return ScalingBiCGSTAB(A, b, itr, eps);
    }
}
