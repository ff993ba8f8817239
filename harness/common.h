// Helpers shared by the harnesses.
#pragma once
#include "../sim/sim.h"
#include <cmath>
#include <cstdio>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <exception>

using sim::Out; using sim::Run; using sim::Rng; using sim::u64; using sim::i64;

inline void put(Out& o, double x) { o.d(x); }
inline void put(Out& o, float x) { o.d(x); }
inline void put(Out& o, int x) { o.i(x); }
inline void put(Out& o, long x) { o.i(x); }
inline void put(Out& o, bool x) { o.b(x); }
inline void put(Out& o, const std::string& s) { o.s(s); }
template <class A, class B> void put(Out& o, const std::pair<A, B>& p) { put(o, p.first); put(o, p.second); }
template <class T> void put(Out& o, const std::vector<T>& v) { o.i((long)v.size()); for (size_t i = 0; i < v.size(); i++) put(o, (const T&)v[i]); }

inline std::string ll(u64 x) { char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)x); return b; }
