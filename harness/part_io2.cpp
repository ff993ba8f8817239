// Glue to ImportFromVTK2.h, whose class has the same name as the one in ImportFromVTK.h (hence its own namespace here).
#define PANSFEM2 PANSFEM2_B
#include <algorithm>
#include "ioenv.h"
#include <iostream>
#include <vector>
#include "PrePost/Import/ImportFromVTK2.h"
using namespace PANSFEM2_B;
namespace {
struct R2 : VtkReader {
    ImportModelFromVTK<double>* m; ~R2() { sim::Lib l; delete m; }
    Rows query(int k, const std::string&) {
        sim::Lib l; Rows r;
        if (k == 0) { auto v = m->GenerateNodes(); sim::NoLib nl; Rows q; for (auto& x : v) { std::vector<double> w; for (int i = 0; i < x.SIZE(); i++) w.push_back(x(i)); q.push_back(w); } return q; }
        auto v = m->GenerateElements(); sim::NoLib nl; Rows q; for (auto& e : v) q.push_back(std::vector<double>(e.begin(), e.end())); return q;
    }
};
}
VtkReader* open_vtk2(const std::string& p) { std::unique_ptr<R2> r(new R2()); r->m = nullptr; { sim::Lib l; r->m = new ImportModelFromVTK<double>(p); } return r.release(); }
