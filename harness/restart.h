// Analyses that can be continued from an exported file (C18).
#pragma once
#include "common.h"
typedef std::vector<std::vector<double> > Rows2;
struct SField { std::string name; bool cell, vec; Rows2 v; };
struct State { Rows2 x; std::vector<std::vector<int> > el; std::vector<SField> field; };
struct StepPar { int kind, nx, ny, steps; double r[8]; };
State st_start(const StepPar&); void st_step(const StepPar&, State&); bool st_write(const State&, const std::string& path); State st_read(const State& shape, const std::string& path);
inline void put(Out& o, const State& s) { put(o, s.x); put(o, s.el); for (auto& f : s.field) { o.s(f.name); put(o, f.v); } }
