// Assembly problems with an independent dense model.
#pragma once
#include <algorithm>
#include "catalog.h"
#include "LinearAlgebra/Models/Vector.h"
#include "LinearAlgebra/Models/Matrix.h"
#include "LinearAlgebra/Models/LILCSR.h"
#include "LinearAlgebra/Models/CSR.h"
#include "FEM/Controller/BoundaryCondition.h"
#include "FEM/Controller/Assembling.h"
using namespace PANSFEM2;
typedef std::vector<std::pair<std::pair<int, int>, double> > Fixed;
typedef std::vector<std::vector<std::pair<int, int> > > Local;
struct Piece { std::vector<int> el; Local n2e; Matrix<double> Ke; Vector<double> Fe; int kind; std::vector<std::vector<int> > els; std::vector<Local> n2es; };
struct Asm {
    int nn, nd; std::vector<std::vector<int> > n2g; std::vector<Vector<double> > u; std::vector<Piece> pieces; Fixed neu; int deg;
    // model
    std::vector<std::vector<double> > ug; std::vector<std::vector<int> > mg; std::vector<std::vector<double> > K, Ka; std::vector<double> F, Fa;
};
// model of the degree-of-freedom table
struct DofModel {
    std::vector<std::vector<int> > t;       // -1 fixed, else number
    void dirichlet(const Fixed& f) { for (auto& e : f) t[e.first.first][e.first.second] = -1; }
    int renumber() { int k = 0; for (size_t i = 0; i < t.size(); i++) for (size_t j = 0; j < t[i].size(); j++) if (t[i][j] != -1) t[i][j] = k++; return k; }
    int periodic(const std::vector<std::pair<int, int> >& p) {
        std::vector<bool> slave(t.size(), false); for (auto& e : p) slave[e.second] = true;
        int k = 0; for (size_t i = 0; i < t.size(); i++) for (auto& d : t[i]) if (slave[i]) d = -1; else if (d != -1) d = k++;
        for (auto& e : p) t[e.second] = t[e.first];         // pairs take effect in the order they are listed
        return k;
    }
    void clear() { for (auto& r : t) for (auto& d : r) d = 0; }
};
inline void dense_add(Asm& a, const Piece& p, bool k, bool f, bool infl) {
    struct L { int g; double u; int e; }; std::vector<L> ls;
    auto addl = [&](const std::vector<int>& el, const Local& n) { for (size_t i = 0; i < el.size(); i++) for (auto& d : n[i]) { L l = {a.mg[el[i]][d.first], a.ug[el[i]][d.first], d.second}; ls.push_back(l); } };
    if (p.kind == 2) for (size_t q = 0; q < p.els.size(); q++) addl(p.els[q], p.n2es[q]); else addl(p.el, p.n2e);
    Matrix<double>& Ke = const_cast<Matrix<double>&>(p.Ke); Vector<double>& Fe = const_cast<Vector<double>&>(p.Fe);
    for (auto& r : ls) { if (r.g < 0) continue;
        for (auto& c : ls) { if (c.g >= 0) { if (k) { a.K[r.g][c.g] += Ke(r.e, c.e); a.Ka[r.g][c.g] += std::fabs(Ke(r.e, c.e)); } } else if (infl) { a.F[r.g] -= Ke(r.e, c.e) * c.u; a.Fa[r.g] += std::fabs(Ke(r.e, c.e) * c.u); } }
        if (f) { a.F[r.g] += Fe(r.e); a.Fa[r.g] += std::fabs(Fe(r.e)); } }
}
// periodic pairs (master, slave) in any orientation and order; several slaves may share a master, a node may be paired twice (the
// corners of a doubly periodic mesh are), and a master may itself be a slave of an earlier pair
inline std::vector<std::pair<int, int> > gen_pairs(Rng& g, int nn) {
    std::vector<int> q(nn); for (int i = 0; i < nn; i++) q[i] = i; for (int i = nn - 1; i > 0; i--) std::swap(q[i], q[g.below(i + 1)]);
    int nm = g.range(1, std::max(1, nn / 2)); bool share = g.chance(0.3); std::vector<std::pair<int, int> > pr;
    for (int i = nm; i < nn; i++) { int m = share ? (int)g.below(nm) : i - nm; if (m < nm && g.chance(0.6)) pr.push_back({q[m], q[i]}); }
    if (g.chance(0.3)) std::reverse(pr.begin(), pr.end()); if (g.chance(0.3)) std::sort(pr.begin(), pr.end());
    if (pr.size() && g.chance(0.25)) { int k = g.range(1, 3); std::vector<bool> done(nn, false); for (auto& e : pr) done[e.second] = true; std::vector<bool> master(nn, false); for (auto& e : pr) master[e.first] = true;
        for (int i = 0; i < k; i++) { int s = pr[g.below(pr.size())].second; if (g.chance(0.5)) { if (!master[s]) { int m = pr[g.below(pr.size())].first; pr.push_back({m, s}); } }      // a slave once more
            else { std::vector<int> fr; for (int j = 0; j < nn; j++) if (!done[j] && !master[j]) fr.push_back(j); if (fr.empty()) continue; int f = fr[g.below(fr.size())]; pr.push_back({s, f}); done[f] = true; master[s] = true; } } }      // a slave becomes a master
    return pr;
}
inline std::shared_ptr<Asm> gen_asm(Rng& g, int maxnodes, int maxel, int onlykind = -1) {
    std::shared_ptr<Asm> a(new Asm()); a->nn = g.range(2, maxnodes); a->nd = g.range(1, 3);
    for (int i = 0; i < a->nn; i++) { Vector<double> v(a->nd); std::vector<double> w; for (int j = 0; j < a->nd; j++) { w.push_back(g.uniform(-2, 2)); v(j) = w.back(); } a->u.push_back(v); a->ug.push_back(w); }
    DofModel m; m.t.assign(a->nn, std::vector<int>(a->nd, 0)); double pf = g.chance(0.2) ? 0 : g.uniform(0, 0.6);
    Fixed f; for (int i = 0; i < a->nn; i++) for (int j = 0; j < a->nd; j++) if (g.chance(pf)) f.push_back({{i, j}, a->ug[i][j]});
    m.dirichlet(f);
    if (g.chance(0.3) && a->nn >= 4) a->deg = m.periodic(gen_pairs(g, a->nn)); else a->deg = m.renumber();
    a->n2g = m.t; a->mg = m.t;
    int ne = g.range(1, maxel);
    double unit = g.chance(0.15) ? std::pow(10.0, g.uniform(-18, 18)) : 1.0; bool mixed = g.chance(0.1);       // units and material contrasts of any size
    for (int e = 0; e < ne; e++) {
        Piece p; p.kind = onlykind >= 0 ? onlykind : (int)g.below(6); int tot = 0;
        auto mk = [&](std::vector<int>& el, Local& n) { int k = g.range(1, std::min(4, a->nn)); std::vector<int> perm(a->nn); for (int i = 0; i < a->nn; i++) perm[i] = i; for (int i = a->nn - 1; i > 0; i--) std::swap(perm[i], perm[g.below(i + 1)]); el.assign(perm.begin(), perm.begin() + k);
            for (int i = 0; i < k; i++) { std::vector<std::pair<int, int> > q; for (int d = 0; d < a->nd; d++) if (a->nd == 1 || g.chance(0.8)) q.push_back({d, tot++}); if (g.chance(0.3) && q.size() > 1) std::swap(q[0], q[1]); n.push_back(q); } };
        if (p.kind == 2) { int k = g.range(1, 2); p.els.resize(k); p.n2es.resize(k); for (int i = 0; i < k; i++) mk(p.els[i], p.n2es[i]); } else mk(p.el, p.n2e);
        if (tot == 0) { p.kind = 4; tot = 1; }
        double sc = mixed ? unit * std::pow(10.0, g.uniform(-9, 3)) : unit, sf = g.chance(0.5) ? sc : 1.0; bool flat = g.chance(0.1);       // flat: many equal entries
        p.Ke = Matrix<double>(tot, tot); p.Fe = Vector<double>(tot); for (int i = 0; i < tot; i++) { p.Fe(i) = sf * g.uniform(-1, 1); for (int j = 0; j < tot; j++) p.Ke(i, j) = g.chance(0.1) ? 0 : sc * (flat ? (double)g.range(-1, 1) : g.uniform(-3, 3)); }
        a->pieces.push_back(p);
    }
    int nf = g.range(0, 4); for (int i = 0; i < nf; i++) a->neu.push_back({{(int)g.below(a->nn), (int)g.below(a->nd)}, g.uniform(-2, 2)});
    a->K.assign(a->deg, std::vector<double>(a->deg, 0)); a->Ka = a->K; a->F.assign(a->deg, 0); a->Fa = a->F;
    for (auto& p : a->pieces) dense_add(*a, p, p.kind <= 3, p.kind == 0 || p.kind == 4, p.kind <= 2 || p.kind == 5);
    for (auto& f : a->neu) { int q = a->mg[f.first.first][f.first.second]; if (q >= 0) { a->F[q] += f.second; a->Fa[q] += std::fabs(f.second); } }
    return a;
}
inline void assemble_piece(Asm& a, Piece& p, LILCSR<double>& K, std::vector<double>& F) {
    switch (p.kind) {
        case 0: Assembling(K, F, a.u, p.Ke, p.Fe, a.n2g, p.n2e, p.el); break;
        case 1: Assembling(K, F, a.u, p.Ke, a.n2g, p.n2e, p.el); break;
        case 2: Assembling(K, F, a.u, p.Ke, a.n2g, p.n2es, p.els); break;
        case 3: Assembling(K, p.Ke, a.n2g, p.n2e, p.el); break;
        case 4: Assembling(F, p.Fe, a.n2g, p.n2e, p.el); break;
        default: Assembling(F, a.u, p.Ke, a.n2g, p.n2e, p.el); break;
    }
}
inline void digest(const Asm& a, Out& o) { put(o, a.n2g); for (auto& v : a.u) { Vector<double>& w = const_cast<Vector<double>&>(v); for (int i = 0; i < w.SIZE(); i++) o.d(w(i)); } for (auto& p : a.pieces) { Matrix<double>& m = const_cast<Matrix<double>&>(p.Ke); for (int i = 0; i < m.ROW(); i++) for (int j = 0; j < m.COL(); j++) o.d(m(i, j)); } }
