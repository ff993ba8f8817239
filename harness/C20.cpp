// C20: a copy of an optimiser, filter or mesher is an independent checkpoint of it.
//PARTS: copy
#include "copyenv.h"
using namespace sim;
struct Handle { std::unique_ptr<Obj> o; std::vector<int> path; Out got; };      // everything done to the object since it (or what it was copied from) was made, and everything it answered
static void act(Handle& h, int c) { h.path.push_back(c); h.o->act(c, h.got); }
static int draw(Rng& g) { int k = (int)g.below(10); return k < 7 ? (int)g.below(4) : k < 9 ? 4 : (int)g.range(5, 6); }
static Obj* try_copy(const Obj& o) { try { return o.copy(); } catch (const std::bad_alloc&) { return nullptr; } }
static void history(Run& R) {
    Rng& g = R.rng; heap_policy(g.next()); ObjKind K = gen_obj(g); std::vector<ObjKind> kinds(1, K); int ops = g.range(5, 16); note("%s, %d operations", K.name.c_str(), ops); default_sched(g); set_budget(3000000000ull); LeakMark m0 = leak_mark();
    {
        std::vector<std::unique_ptr<Handle> > hs, dead; auto first = [&] { std::unique_ptr<Handle> h(new Handle()); h->o.reset(K.make()); hs.push_back(std::move(h)); }; first(); auto fork = [&](Handle& s, Obj* c) { std::unique_ptr<Handle> h(new Handle()); h->o.reset(c); h->path = s.path; h->got = s.got; return h; };
        auto retire = [&](size_t k) { hs[k]->o.reset(); dead.push_back(std::move(hs[k])); hs.erase(hs.begin() + k); };
        int live_ops = 0;
        for (int i = 0; i < ops; i++) {
            u64 r = g.below(100), k = g.below(hs.size()), k2 = g.below(hs.size()), f = g.below(12); int c = draw(g); if (!enabled(i)) continue; Handle& h = *hs[k];
            if (r < 48) act(h, c);
            else if (r < 72 && hs.size() < 5) { hs.push_back(fork(h, h.o->copy())); probe("copies"); live_ops++; }
            else if (r < 80) { alloc_fail_at(alloc_count() + f); u64 f0 = alloc_failures(); Obj* q = try_copy(*h.o); bool hit = alloc_failures() != f0; alloc_fail_clear(); if (!q && !hit) fail("exception", "copying %s ran out of memory although nothing was refused", K.name.c_str()); if (q) { if (hs.size() < 5) hs.push_back(fork(h, q)); else { std::unique_ptr<Obj> z(q); } } probe(q ? "copies" : "copies_refused"); live_ops++; }
            else if (r < 86) { std::unique_ptr<Obj> n(h.o->moved()); h.o = std::move(n); probe("moves"); live_ops++; }
            else if (r < 93) { if (k != k2 || g.chance(0.2)) if (h.o->assign(*hs[k2]->o)) { h.path = hs[k2]->path; Out t = hs[k2]->got; h.got = t; probe("assignments"); live_ops++; } }
            else if (hs.size() > 1) { retire(k); probe("copies_destroyed"); } else first();
        }
        // several callers at once: each copies the same object (which nobody uses meanwhile), uses its own copy and one object of its own
        int nc = g.range(0, 3); u64 cs = g.next(); if (nc > 1) {
            Handle& src = *hs[0]; std::vector<std::unique_ptr<Handle> > extra(nc);
            for (int t = 0; t < nc; t++) spawn([&, t] { Rng z(mix(cs, t)); extra[t] = fork(src, src.o->copy()); int n = z.range(1, 3); for (int i = 0; i < n; i++) { int c = draw(z); if (enabled(40 + t * 10 + i)) act(*extra[t], c); if ((size_t)t + 1 < hs.size() && z.chance(0.5)) act(*hs[t + 1], draw(z)); } if (z.chance(0.4)) extra[t]->o.reset(); });
            join_all(); for (auto& e : extra) dead.push_back(std::move(e)); probe("callers_copy_one_object"); live_ops++;
        }
        for (auto& h : hs) for (int c : {0, 4}) act(*h, c);
        if (live_ops) mark();
        for (auto& h : hs) dead.push_back(std::move(h)); hs.clear();
        for (auto& h : dead) { Out w = solo([&](Out& o) { std::unique_ptr<Obj> x(K.make()); for (int c : h->path) x->act(c, o); }, 1); if (w != h->got) fail("copies-not-independent", "%s: what one of %zu copies answered is not what an object used alone in the same way answers: %s", K.name.c_str(), dead.size(), diff(w, h->got).c_str()); for (u64 v : h->got.v) mix_hash(v); }
        while (!dead.empty()) { size_t k = g.below(dead.size()); dead[k].swap(dead.back()); dead.pop_back(); }
    }
    if (leaked(m0)) fail("leak", "%s: %lld blocks left after every copy has been destroyed", K.name.c_str(), (long long)leaked(m0));
}
Property& sim::property() {
    static Property P;
    big_rate() = 0.01;
    P.id = "C20"; P.level = "exploration";
    P.rule = "Each run draws one class (OC, MMA, CONLIN, the four filters, the eight meshers) and a seeded history of uses, copies, moves, assignments, refused copies (allocation failure) and destructions over up to five objects, then lets up to three callers copy one object at once and use their copies next to each other. Everything each object answers is compared with a fresh object, used alone in the same way in a pristine process; nothing may leak. Distinct by the hash of workload, schedule and answers; non-trivial: at least one copy, move or assignment.";
    P.scenarios = {{"history", history, 1}};
    P.real_components = {"src/Optimize/{Solver,Filter}, src/PrePost/Mesher (built from /repo, instrumented)"};
    P.stub_components = {"operator new/delete (simulated heap with injected failures)", "thread scheduling (baton scheduler)", "std::cout (captured per caller)"};
    P.assumptions = {"sequentially consistent memory", "optimisation problems are convex, so the inner loops end"};
    P.quick_runs = 60000; P.thorough_runs = 4000000; P.quick_seconds = 20; P.thorough_seconds = 900;
    return P;
}
