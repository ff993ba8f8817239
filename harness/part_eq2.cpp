// plane elasticity and homogenisation
#include "eqenv.h"
#include <algorithm>
#include "FEM/Equation/PlaneStrain.h"
#include "FEM/Equation/PlaneStress.h"
#include "FEM/Equation/Homogenization.h"
using namespace PANSFEM2;
static Vector<double> load(Vector<double> x) { tick(); return {1.0 + 0.3 * x(0), -0.5}; }
#define PR E.r[0], E.r[1] * 0.2, E.r[2]
static void all() {
    EQ_K(PlaneStrainStiffness, ShapeFunction4Square, Gauss4Square, 2, 2, PR);
    EQ_K(PlaneStrainStiffness, ShapeFunction3Triangle, Gauss1Triangle, 2, 2, PR);
    EQ_K(PlaneStrainStiffness, ShapeFunction8Square, Gauss9Square, 2, 2, PR);
    EQ_K4(PlaneStrainStiffnessSRI, ShapeFunction4Square, Gauss1Square, Gauss4Square, 2, 2, PR);
    EQ_K4(PlaneStrainStiffnessBbar, ShapeFunction4Square, Gauss1Square, Gauss4Square, 2, 2, PR);
    EQ_K(PlaneStrainStiffnessWilsonTaylor, ShapeFunction4Square, Gauss4Square, 2, 2, PR);
    EQ_KF(PlaneStrainStiffnessTotalLagrange, ShapeFunction4Square, Gauss4Square, 2, 2, E.u, PR);
    EQ_KF(PlaneStrainStiffnessUpdatedLagrange, ShapeFunction4Square, Gauss4Square, 2, 2, E.u, PR);
    EQ_K(PlaneStrainMass, ShapeFunction8Square, Gauss9Square, 2, 2, E.r[0], E.r[1]);
    EQ_F(PlaneStrainSurfaceForce, ShapeFunction2Line, Gauss2Line, 2, 2, load, E.r[0]);
    EQ_F(PlaneStrainSurfaceForce, ShapeFunction3Line, Gauss2Line, 2, 2, load, E.r[0]);
    EQ_KF(PlaneStrainSurfacePressureUpdatedLagrange, ShapeFunction2Line, Gauss2Line, 2, 2, E.u, E.r[0], E.r[1]);
    EQ_F(PlaneStrainBodyForce, ShapeFunction3Triangle, Gauss1Triangle, 2, 2, load, E.r[0]);
    EQ_K(PlaneStressStiffness, ShapeFunction4Square, Gauss4Square, 2, 2, PR);
    EQ_K(PlaneStressStiffness, ShapeFunction6Triangle, Gauss3Triangle, 2, 2, PR);
    EQ_K(PlaneStressMass, ShapeFunction4Square, Gauss4Square, 2, 2, E.r[0], E.r[1]);
    EQ_F(PlaneStressSurfaceForce, ShapeFunction2Line, Gauss2Line, 2, 2, load, E.r[0]);
    EQ_F(PlaneStressBodyForce, ShapeFunction4Square, Gauss4Square, 2, 2, load, E.r[0]);
    EQ_K(HomogenizePlaneStrainBodyForce, ShapeFunction4Square, Gauss4Square, 2, 2, PR);
    EQ_K(PlaneStiffness, ShapeFunction4Square, Gauss4Square, 2, 2, E.D, E.r[0]);
    EQ_K4(PlaneStiffnessBbar, ShapeFunction4Square, Gauss1Square, Gauss4Square, 2, 2, E.D, E.r[0]);
    EQ_K(PlaneStiffnessWilsonTaylor, ShapeFunction4Square, Gauss4Square, 2, 2, E.D, E.r[0]);
    reg_eq<ShapeFunction4Square>("HomogenizePlaneStrainConstitutive", 2, 2, 99, [](Env& E, int q, Out& o) { Matrix<double> C = left_m(); { sim::Lib l; C = HomogenizePlaneStrainConstitutive<double, ShapeFunction4Square, Gauss4Square>(E.x, E.el[q], E.c0, E.c1, E.c2, E.r[0], E.r[1] * 0.2, E.r[2]); } put(o, C); });
    reg_eq<ShapeFunction4Square>("HomogenizePlaneStrainCheck", 2, 2, 99, [](Env& E, int q, Out& o) { Matrix<double> C = left_m(); { sim::Lib l; C = HomogenizePlaneStrainCheck<double, ShapeFunction4Square, Gauss4Square>(E.x, E.el[q], E.c0, E.c1, E.c2, E.r[2]); } put(o, C); });
}
static AtStart at(all);
