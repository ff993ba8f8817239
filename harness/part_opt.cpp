// Catalogue: optimisers and filters.
#include "optenv.h"
namespace {
template <class F> Case filter_case(Rng& g, bool vars, bool sens, std::function<void(F&, double)> beta) {
    std::shared_ptr<FilterIn> in(new FilterIn(gen_filter(g)));
    std::vector<double> betas; int nb = g.range(1, 3); for (int i = 0; i < nb; i++) betas.push_back(g.uniform(0.5, 16));
    bool share = !beta && g.chance(0.5); std::shared_ptr<F> sh; if (share) sh.reset(new F(in->n, in->nb, in->w));
    Case c;
    c.inputs = [=](Out& o) { in->digest(o); };
    c.run = [=](Out& o) {
        std::shared_ptr<F> f = sh; if (!f) { F* p; { sim::Lib l; p = new F(in->n, in->nb, in->w); } f.reset(p, [](F* x) { sim::Lib l; delete x; }); }
        for (double b : betas) {
            if (beta) { sim::Lib l; beta(*f, b); }
            std::vector<double> r;
            if (vars) filt_vars(*f, *in, r, o, 0);
            if (sens) { { sim::Lib l; r = f->GetFilteredSensitivitis(in->s, in->df); } put(o, r); }
        }
    };
    return c;
}
Case dens(Rng& g) { return filter_case<DensityFilter<double> >(g, true, true, nullptr); }
Case heav(Rng& g) { return filter_case<HeavisideFilter<double> >(g, true, true, [](HeavisideFilter<double>& f, double b) { f.UpdateBeta(b); }); }
Case sen1(Rng& g) { return filter_case<SensitivityFilter<double> >(g, false, true, nullptr); }
Case sen2(Rng& g) { return filter_case<SensitivityFilter2<double> >(g, false, true, nullptr); }
template <class D> Case opt_case(Rng& g) {
    std::shared_ptr<Prob> p(new Prob(gen_prob(g, D::maxm))); int steps = g.range(1, 5);
    Case c; c.inputs = [=](Out& o) { p->digest(o); };
    c.run = [=](Out& o) { D d(*p); std::vector<double> x = p->x0; for (int k = 0; k < steps; k++) d.step(x, o); };
    return c;
}
AtStart st([] {
    reg("DensityFilter", "opt", dens, 3); reg("HeavisideFilter", "opt", heav, 3); reg("SensitivityFilter", "opt", sen1, 2); reg("SensitivityFilter2", "opt", sen2, 2);
    reg("OC", "opt", opt_case<DriveOC>, 4); reg("MMA", "opt", opt_case<DriveMMA>, 4); reg("CONLIN", "opt", opt_case<DriveCON>, 4);
});
}
