// solids, shells, beams, flow
#include "eqenv.h"
#include <algorithm>
#include "FEM/Equation/Solid.h"
#include "FEM/Equation/Shell.h"
#include "FEM/Equation/Beam.h"
#include "FEM/Equation/Stokes.h"
using namespace PANSFEM2;
static Vector<double> load(Vector<double> x) { tick(); return {1.0 + 0.3 * x(0), -0.5}; }
static void all() {
    EQ_K(SolidLinearIsotropicElastic, ShapeFunction8Cubic, Gauss8Cubic, 3, 3, E.r[0], E.r[1] * 0.2);
    EQ_K(SolidLinearIsotropicElastic, ShapeFunction4Tetrahedron, Gauss1Tetrahedron, 3, 3, E.r[0], E.r[1] * 0.2);
    reg_eq<ShapeFunction20Cubic>("SolidLinearIsotropicElastic20", 3, 3, 99, [](Env& E, int q, Out& o) { Matrix<double> K = left_m(); N2E n = left_n(); { sim::Lib l; SolidLinearIsotropicElastic<double, ShapeFunction20Cubic, Gauss27Cubic>(K, n, E.el[q], E.dou, E.x, E.r[0], E.r[1] * 0.2); } put(o, K); put(o, n); }, 1, 1);
    EQ_KF(SolidTotalLagrange, ShapeFunction4Tetrahedron, Gauss1Tetrahedron, 3, 3, E.u, E.r[0], E.r[1] * 0.2);
    EQ_KF(SolidTotalLagrange, ShapeFunction8Cubic, Gauss8Cubic, 3, 3, E.u, E.r[0], E.r[1] * 0.2);
    EQ_KF(SolidUpdatedLagrange, ShapeFunction8Cubic, Gauss8Cubic, 3, 3, E.u, E.r[0], E.r[1] * 0.2);
    EQ_K4(ShellLinearIsotropicElastic, ShapeFunction4Square, Gauss4Square, Gauss2Line, 3, 5, E.r[0], E.r[1] * 0.2, E.r[2] * 0.1);
    EQ_K4(ShellLinearIsotropicElastic, ShapeFunction8Square, Gauss4Square, Gauss2Line, 3, 5, E.r[0], E.r[1] * 0.2, E.r[2] * 0.1);
    EQ_K4(ShellLinearIsotropicElastic2, ShapeFunction4Square, Gauss1Square, Gauss2Line, 3, 6, E.r[0], E.r[1] * 0.2, E.r[2] * 0.1);
    EQ_K4(BeamLinearIsotropicElastic, ShapeFunction2Line, Gauss1Line, Gauss4Square, 3, 6, E.v1, E.v2, E.r[0], E.r[1] * 0.2, E.r[2] * 0.1, E.r[3] * 0.1);
    EQ_K4(BeamLinearIsotropicElastic, ShapeFunction3Line, Gauss2Line, Gauss4Square, 3, 6, E.v1, E.v2, E.r[0], E.r[1] * 0.2, E.r[2] * 0.1, E.r[3] * 0.1);
    EQ_KP(StokesStiffness, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square, 4, E.r[0]);
    EQ_KP(StokesStiffness, ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle, 3, E.r[0]);
    EQ_KP(StokesMass, ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle, 3, E.r[0]);
    EQ_FP(StokesSurfaceForce, ShapeFunction3Line, ShapeFunction2Line, Gauss2Line, 2, load);
    EQ_FP(StokesBodyForce, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square, 4, load);
    EQ_KP(BrinkmanBodyForce, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square, 4, E.k);
}
static AtStart at(all);
