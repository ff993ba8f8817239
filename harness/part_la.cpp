// Catalogue: vectors, matrices, sparse matrices, factorisations, eigenvalues (group la); iterative solvers (group solve).
#include "laenv.h"
#include <sstream>
#include "LinearAlgebra/Solvers/LU.h"
namespace {
#define RUN(type, expr) { type r_; { sim::Lib l_; r_ = (expr); } put(o, r_); }
Case vecs(Rng& g) {
    int n = size_of(g, 1, 8, 300), k = (int)g.below(10); double a = g.uniform(-2, 2); if (k == 8) n = 3;
    std::shared_ptr<std::vector<Vector<double> > > v(new std::vector<Vector<double> >()); v->push_back(rvec(g, n)); v->push_back(rvec(g, n)); int h = (int)g.below(n), t = g.range(h + 1, n);
    Case c; c.inputs = [=](Out& o) { put(o, (*v)[0]); put(o, (*v)[1]); };
    c.run = [=](Out& o) {
        Vector<double>&x = (*v)[0], &y = (*v)[1];
        switch (k) {
            case 0: RUN(Vector<double>, x + y); RUN(Vector<double>, x - y); RUN(Vector<double>, -x); break;
            case 1: { double r; { sim::Lib l; r = x * y; } put(o, r); RUN(Matrix<double>, x * y.Transpose()); break; }
            case 2: RUN(Vector<double>, x * a); RUN(Vector<double>, x / (a + 3)); RUN(Vector<double>, a * x); break;
            case 3: { double r; { sim::Lib l; r = x.Norm(); } put(o, r); RUN(Vector<double>, x.Normal()); break; }
            case 4: RUN(Matrix<double>, x.Transpose()); RUN(Vector<double>, x.Vstack(y)); break;
            case 5: RUN(Vector<double>, x.Segment(h, t)); RUN(Matrix<double>, Diagonal(x)); break;
            case 6: { sim::Lib l; Vector<double> z = x; z += y; z *= a; z -= y; z /= 3.0; sim::NoLib nl; put(o, z); break; }
            case 7: { sim::Lib l; std::vector<double> w; for (int i = 0; i < x.SIZE(); i++) w.push_back(x(i)); Vector<double> z(w), q(x.SIZE()); q = z; Matrix<double> mm(z); Vector<double> zz(mm); sim::NoLib nl; put(o, q); put(o, zz); break; }
            case 8: RUN(Vector<double>, VectorProduct(x, y)); break;
            default: { std::string s; { sim::Lib l; std::ostringstream os; os << x; if (!os) throw std::bad_alloc(); s = os.str(); } put(o, s); break; }
        }
    };
    return c;
}
Case mats(Rng& g) {
    int k = (int)g.below(9), n = size_of(g, 1, 4, 30), m = size_of(g, 1, 5, 30), p = size_of(g, 1, 4, 30); double a = g.uniform(-2, 2); if (k >= 6) { if (k < 8) n = g.range(1, 5); m = n; } if (k == 5) { n = g.range(2, 5); m = g.range(2, 5); }
    std::shared_ptr<std::vector<Matrix<double> > > v(new std::vector<Matrix<double> >()); v->push_back(rmat(g, n, m)); v->push_back(rmat(g, n, m)); v->push_back(rmat(g, m, p)); if (k >= 6) for (int i = 0; i < n; i++) (*v)[0](i, i) += 8;
    std::shared_ptr<Vector<double> > u(new Vector<double>(rvec(g, m))); int bi = (int)g.below(n), bj = (int)g.below(m), bh = g.range(1, n - bi), bw = g.range(1, m - bj);
    Case c; c.inputs = [=](Out& o) { for (auto& x : *v) put(o, x); put(o, *u); };
    c.run = [=](Out& o) {
        Matrix<double>&x = (*v)[0], &y = (*v)[1], &z = (*v)[2];
        switch (k) {
            case 0: RUN(Matrix<double>, x + y); RUN(Matrix<double>, x - y); RUN(Matrix<double>, -x); break;
            case 1: RUN(Matrix<double>, x * z); RUN(Vector<double>, x * (*u)); break;
            case 2: RUN(Matrix<double>, x * a); RUN(Matrix<double>, x / (a + 3)); RUN(Matrix<double>, a * x); break;
            case 3: RUN(Matrix<double>, x.Transpose()); RUN(Matrix<double>, x.Vstack(y)); RUN(Matrix<double>, x.Hstack(y)); break;
            case 4: RUN(Matrix<double>, x.Block(bi, bj, bh, bw)); RUN(Matrix<double>, Identity<double>(x.ROW())); break;
            case 5: RUN(Matrix<double>, x.Cofactor(bi, bj)); { sim::Lib l; Matrix<double> w = x; w += y; w *= a; w -= y; w /= 3.0; sim::NoLib nl; put(o, w); } break;
            case 6: { double r; { sim::Lib l; r = x.Determinant(); } put(o, r); break; }
            case 7: RUN(Matrix<double>, x.Inverse()); break;
            default: { std::string s; { sim::Lib l; std::ostringstream os; os << x; if (!os) throw std::bad_alloc(); s = os.str(); } put(o, s); break; }
        }
    };
    return c;
}
Case lu(Rng& g) {
    int n = size_of(g, 1, 7, 24); std::shared_ptr<Matrix<double> > a(new Matrix<double>(rmat(g, n, n))); for (int i = 0; i < n; i++) (*a)(i, i) += 1; std::shared_ptr<Vector<double> > b(new Vector<double>(rvec(g, n)));
    Case c; c.inputs = [=](Out& o) { put(o, *a); put(o, *b); };
    c.run = [=](Out& o) { sim::Lib l; Matrix<double> A = *a; Vector<double> x = *b; std::vector<int> piv(A.ROW()); LU(A, piv); SolveLU(A, x, piv); sim::NoLib nl; put(o, A); put(o, piv); put(o, x); };
    return c;
}
Case csrs(Rng& g) {
    int r = size_of(g, 1, 10, 150), cc = size_of(g, 1, 10, 150), k = (int)g.below(7); double a = g.uniform(-2, 2) + 3; MatModel m1 = gen_matrix(g, r, cc, (int)g.below(5), 2), m2 = gen_matrix(g, r, cc, (int)g.below(5), 2); Rng g2(g.next());
    struct In { CSR<double> A, B; LILCSR<double> L, K; std::vector<double> x; In(const CSR<double>& a, const CSR<double>& b, const LILCSR<double>& l, const LILCSR<double>& k, const std::vector<double>& v) : A(a), B(b), L(l), K(k), x(v) {} };
    std::shared_ptr<In> in(new In(to_csr<double>(m1, g2, 0), to_csr<double>(m2, g2, 1), to_lil<double>(m1, g2), to_lil<double>(m2, g2), gen_vec(g, cc)));
    std::vector<std::pair<std::pair<int, int>, double> > sets; for (int i = 0; i < 4; i++) sets.push_back({{(int)g.below(r), (int)g.below(cc)}, g.uniform(-1, 1)});
    Case c; c.inputs = [=](Out& o) { put(o, in->A); put(o, in->B); put(o, in->L); put(o, in->K); put(o, in->x); };
    c.run = [=](Out& o) {
        sim::Lib l; CSR<double>&A = in->A, &B = in->B; LILCSR<double>&L = in->L, &K = in->K;
        switch (k) {
            case 0: { CSR<double> C = A + B, D = A - B; sim::NoLib nl; put(o, C); put(o, D); break; }
            case 1: { CSR<double> C = A * a, D = A / a; sim::NoLib nl; put(o, C); put(o, D); break; }
            case 2: { LILCSR<double> C = L + K, D = L - K; sim::NoLib nl; put(o, C); put(o, D); break; }
            case 3: { LILCSR<double> C = a * L, D = L / a; std::vector<double> y = L * in->x; sim::NoLib nl; put(o, C); put(o, D); put(o, y); break; }
            case 4: { LILCSR<double> C(A); for (auto& s : sets) C.set(s.first.first, s.first.second, s.second); CSR<double> D(C); std::vector<double> y = D * in->x; sim::NoLib nl; put(o, D); put(o, y); break; }
            case 5: { CSR<double> D(L), E(K); std::vector<double> y = L * in->x, z = E * in->x; sim::NoLib nl; put(o, D); put(o, E); put(o, y); put(o, z); break; }
            default: { CSR<double> C(A); std::vector<bool> rr; for (auto& s : sets) rr.push_back(C.set(s.first.first, s.first.second, s.second)); std::string t; { std::ostringstream os; os << C; if (!os) throw std::bad_alloc(); t = os.str(); } sim::NoLib nl; put(o, C); put(o, t); for (bool q : rr) o.b(q); break; }
        }
    };
    return c;
}
Case ilu(Rng& g) {
    std::shared_ptr<Sys> s = g.chance(0.6) ? gen_sys(g, 10, g.chance(0.5)) : odd_sys(g, 10, g.chance(0.5));
    Case c; c.inputs = [=](Out& o) { put(o, s->A); put(o, s->M); put(o, s->b); };
    c.run = [=](Out& o) { sim::Lib l; CSR<double> M = ILU0(s->A); std::vector<double> y = PreILU0(s->M, s->b), d = GetDiagonal(s->A), e = Scaling(d, s->b); sim::NoLib nl; put(o, M); put(o, y); put(o, d); put(o, e); };
    return c;
}
Case tri(Rng& g) {      // pieces of the eigensolver (without the 10000-step inverse iteration)
    int m = size_of(g, 1, 8, 80); std::vector<double> al(m), be(m), y(m); for (auto& x : al) x = g.uniform(0.1, 5); for (auto& x : be) x = g.uniform(0.1, 1); for (auto& x : y) x = g.uniform(-1, 1); if (g.chance(0.1)) for (auto& x : al) x = 0; if (g.chance(0.1)) for (auto& x : be) x = 0;
    std::shared_ptr<std::vector<std::vector<double> > > q(new std::vector<std::vector<double> >(m, std::vector<double>(m + 2))); for (auto& v : *q) for (auto& x : v) x = g.uniform(-1, 1); int mode = (int)g.below(m);
    Case c; c.inputs = [=](Out& o) { put(o, *q); };
    c.run = [=](Out& o) { sim::Lib l; double v = BisectionMethod(al, be, mode); std::vector<double> r = ReconvertVector(y, *q); sim::NoLib nl; put(o, v); put(o, r); };
    return c;
}
Case eig(Rng& g) {
    std::shared_ptr<Sys> s = gen_sys(g, 6, true), t = s; int k = (int)g.below(5), m = g.range(1, std::min(2, s->m.rows)); int n = s->m.rows;
    std::shared_ptr<CSR<double> > B; { MatModel bm(n, n); for (int i = 0; i < n; i++) bm.r[i][i] = g.uniform(0.5, 2); Rng g2(g.next()); B.reset(new CSR<double>(to_csr<double>(bm, g2, 1))); }
    double sigma = -g.uniform(0, 1);
    if (g.chance(0.15)) { MatModel mm = s->m; for (int i = 0; i < n; i++) mm.r[i][i] = k >= 2 ? sigma : 0.0; if (k > 2) for (int i = 0; i < n; i++) mm.r[i][i] = sigma * B->get(i, i); Rng g2(g.next()); s.reset(new Sys(mm, to_csr<double>(mm, g2, 1), s->M, s->b)); }   // no diagonal to start from
    Case c; c.inputs = [=](Out& o) { put(o, s->A); put(o, *B); };
    c.run = [=](Out& o) {
        sim::Lib l; std::vector<double> val; std::vector<std::vector<double> > vec;
        if (k == 0) Lanczos(s->A, val, vec, m); else if (k == 1) RestartLanczos(s->A, val, vec, m); else if (k == 2) ShiftedInvertLanczos(s->A, val, vec, m, sigma);
        else if (k == 3) GeneralShiftedInvertLanczos(s->A, *B, val, vec, m, sigma); else GeneralRestartShiftedInvertLanczos(s->A, *B, val, vec, m, sigma);
        sim::NoLib nl; put(o, val); put(o, vec);
    };
    return c;
}
template <int K> Case solve(Rng& g) {
    std::shared_ptr<Sys> s = gen_sys(g, 9, K < NSYM); int itr = g.range(1, 30); double eps = std::pow(10.0, -g.uniform(2, 10));
    Case c; c.inputs = [=](Out& o) { put(o, s->A); put(o, s->M); put(o, s->b); };
    c.run = [=](Out& o) { sim::cout_clear(sim::self()); std::vector<double> x; { sim::Lib l; x = call_solver<double>(K, s->A, s->M, s->b, itr, eps); } put(o, x); put(o, sim::cout_text(sim::self())); };
    return c;
}
Case sor(Rng& g) {
    std::shared_ptr<Sys> s = gen_sys(g, 9, true); int itr = g.range(1, 10); double w = g.uniform(0.8, 1.6);
    Case c; c.inputs = [=](Out& o) { put(o, s->A); put(o, s->b); };
    c.run = [=](Out& o) { sim::cout_clear(sim::self()); std::vector<double> x; { sim::Lib l; x = SOR(s->A, s->b, w, itr, 1e-6); } put(o, x); put(o, sim::cout_text(sim::self())); };
    return c;
}
AtStart st([] {
    reg("Vector operations", "la", vecs, 6); reg("Matrix operations", "la", mats, 6); reg("LU", "la", lu, 3); reg("CSR/LILCSR operations", "la", csrs, 6); reg("ILU0/PreILU0/GetDiagonal/Scaling", "la", ilu, 3); reg("tridiagonal eigen pieces", "la", tri, 2); reg("Lanczos family", "eig", eig, 1);
    reg("CG", "solve", solve<0>); reg("ScalingCG", "solve", solve<1>); reg("ILU0CG", "solve", solve<2>); reg("SORCG", "solve", solve<3>); reg("BiCGSTAB", "solve", solve<4>); reg("BiCGSTAB2", "solve", solve<5>); reg("ILU0BiCGSTAB", "solve", solve<6>); reg("ScalingBiCGSTAB", "solve", solve<7>); reg("SOR", "solve", sor);
});
}
