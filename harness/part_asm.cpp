// Catalogue: assembly, boundary conditions, disassembly.
#include "asmenv.h"
namespace {
Case assemble(Rng& g) {
    std::shared_ptr<Asm> a = big(g) ? gen_asm(g, 40, 40) : gen_asm(g, 6, 4); std::vector<double> res; for (int i = 0; i < a->deg; i++) res.push_back(g.uniform(-1, 1));
    Case c; c.inputs = [=](Out& o) { digest(*a, o); };
    c.run = [=](Out& o) {
        sim::Lib l; LILCSR<double> K(a->deg, a->deg); std::vector<double> F(a->deg, 0.0);
        for (auto& p : a->pieces) assemble_piece(*a, p, K, F);
        Assembling(F, a->neu, a->n2g); CSR<double> C(K); std::vector<Vector<double> > u = a->u; Disassembling(u, res, a->n2g);
        sim::NoLib nl; for (int i = 0; i < a->deg; i++) for (int j = 0; j < a->deg; j++) { o.d(K.get(i, j)); o.d(C.get(i, j)); } put(o, F); for (auto& v : u) for (int i = 0; i < v.SIZE(); i++) o.d(v(i));
    };
    return c;
}
Case bcs(Rng& g) {
    int nn = size_of(g, 2, 8, 300), nd = g.range(1, 3); Fixed f; for (int i = 0; i < nn; i++) for (int j = 0; j < nd; j++) if (g.chance(0.3)) f.push_back({{i, j}, g.uniform(-1, 1)});
    std::vector<std::pair<int, int> > pr = gen_pairs(g, nn); int how = (int)g.below(3);
    Case c; c.run = [=](Out& o) {
        sim::Lib l; std::vector<std::vector<int> > t(nn, std::vector<int>(nd, 0)); std::vector<Vector<double> > u(nn, Vector<double>(nd)); int k;
        if (how == 0) SetDirichlet(t, f); else SetDirichlet(u, t, f);
        if (how == 2) k = SetPeriodic(t, pr); else k = Renumbering(t);
        sim::NoLib nl; put(o, t); put(o, k); for (auto& v : u) for (int i = 0; i < v.SIZE(); i++) o.d(v(i));
        { sim::Lib l2; RemoveBoundaryConditions(t); } put(o, t);
    };
    return c;
}
AtStart st([] { reg("Assembling/Disassembling", "asm", assemble, 4); reg("SetDirichlet/SetPeriodic/Renumbering", "asm", bcs, 3); });
}
