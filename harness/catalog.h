// Catalogue of library operations used by several properties. Every operation can be made into a
// Case: inputs generated once from a seed, then a closure that calls the real library (inside
// sim::Lib) and records everything a caller can see. Cases marked sharable only read their inputs,
// so several callers may run the same Case at once.
#pragma once
#include "common.h"
#include <functional>
#include <memory>
struct Case {
    std::function<void(Out&)> run;          // may be called repeatedly; lets exceptions through
    std::function<void(Out&)> inputs;       // digest of the shared inputs (empty: none shared)
};
struct Op {
    const char* name; const char* group; std::function<Case(Rng&)> make; int weight;
};
inline std::vector<Op>& catalog() { static std::vector<Op> c; return c; }
// once in a while an input is much larger than usual, in all its dimensions at once (code that takes another path for large inputs)
inline double& big_rate() { static double r = 0.025; return r; }
inline int& case_big() { static int k = -1; return k; }     // inside the making of a case: is it a large one? (-1: no case is being made)
inline bool big(Rng& g) { double u = g.uniform(0, 1); return u < (case_big() < 0 ? big_rate() : case_big() ? 0.8 : 0.0); }
inline int size_of(Rng& g, int lo, int hi, int huge) { return big(g) ? g.range(hi, huge) : g.range(lo, hi); }
inline void reg(const char* name, const char* group, std::function<Case(Rng&)> make, int weight = 3) {
    Op o = {name, group, [make](Rng& g) { struct S { int old; ~S() { case_big() = old; } } s = {case_big()}; case_big() = g.uniform(0, 1) < big_rate(); return make(g); }, weight}; catalog().push_back(o);
}
// what the caller's output variables hold before the call: 0 nothing, else seeded leftovers of something else
inline u64& leftovers() { static u64 s = 0; return s; }
// every user function the harness hands to the library reports here first (see C19)
inline std::function<void()>& on_tick() { static std::function<void()> f; return f; }
inline void tick() { if (on_tick()) { sim::NoLib n; on_tick()(); } }
struct AtStart { AtStart(void (*f)()) { f(); } };
// pick an operation of a group (null = any), by weight
inline const Op& pick_op(Rng& g, const std::vector<std::string>& groups) {
    int tot = 0; auto in = [&](const Op& o) { if (groups.empty()) return true; for (auto& s : groups) if (s == o.group) return true; return false; };
    for (auto& o : catalog()) if (in(o)) tot += o.weight;
    int k = (int)g.below(tot);
    for (auto& o : catalog()) if (in(o)) { k -= o.weight; if (k < 0) return o; }
    return catalog().front();
}

// any operation, each group of operations given a fair share (there are many element equations and few of everything else)
inline const Op& pick_fair(Rng& g, std::vector<std::string> groups) {
    int k = (int)g.below(10); if (k < 4) return pick_op(g, std::vector<std::string>(1, groups[0]));
    return pick_op(g, std::vector<std::string>(1, groups[1 + (k - 4) % (groups.size() - 1)]));
}

// A family of cases of one operation: the first is drawn from a seed, the others from the same seed with one draw changed,
// so they agree in every input but one (or a few). This is what tells a call's own inputs from something remembered of another call.
struct Family {
    u64 seed, n; Family(Rng& g) : seed(g.next()), n(0) {}
    Case first(const Op& o) { Rng r(seed); Case c = o.make(r); n = r.n; return c; }
    Case variant(const Op& o, Rng& g) { Rng r(seed); u64 at = g.below(n ? n : 1); int k = (int)g.below(4); if (k == 0 && n > 30) at = g.below(30); if (k >= 2 && n > 30) at = n - 1 - g.below(30); r.change(at, g.next()); return o.make(r); }
};
