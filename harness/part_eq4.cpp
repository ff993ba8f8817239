// Navier-Stokes
#include "eqenv.h"
#include <algorithm>
#include "FEM/Equation/NavierStokes.h"
using namespace PANSFEM2;
static Vector<double> load(Vector<double> x) { tick(); return {1.0 + 0.3 * x(0), -0.5}; }
static void all() {
    EQ_KFP(NavierStokesTangent, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square, 4, E.up, E.r[0], E.r[1]);
    EQ_KFP(NavierStokesTangent, ShapeFunction6Triangle, ShapeFunction3Triangle, Gauss3Triangle, 3, E.up, E.r[0], E.r[1]);
    EQ_KP(NavierStokesStiffness, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, E.up, E.r[0], E.r[1]);
    EQ_KP(NavierStokesConsistentMass, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, E.r[0]);
    EQ_KP(ContinuityStiffness, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square, 4);
    EQ_KP(NavierStokesSUPGPSPGStiffness, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, E.up, E.r[0], E.r[1], E.r[2]);
    EQ_KP(NavierStokesSUPGPSPGConsistentMass, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, E.up, E.r[0], E.r[1], E.r[2]);
    EQ_KP(ContinuitySUPGPSPGStiffness, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, E.up, E.r[0], E.r[1], E.r[2]);
    EQ_FP(NavierStokesBodyForce, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, load);
    EQ_K(NavierStokesDecoupledConsistentMass, ShapeFunction4Square, Gauss4Square, 2, 2, E.r[0]);
    EQ_K(NavierStokesDecoupledLumpedMass, ShapeFunction4Square, Gauss4Square, 2, 2, E.r[0]);
    EQ_F(NavierStokesAuxiliaryVelocity, ShapeFunction4Square, Gauss4Square, 2, 2, E.up, E.r[0], E.r[1]);
    EQ_KF(NavierStokesPressurePoisson, ShapeFunction4Square, Gauss4Square, 2, 1, E.up, E.r[0], E.r[1]);
    EQ_F(NavierStokesNextstepVelocity, ShapeFunction4Square, Gauss4Square, 2, 2, E.up, E.p, E.r[0]);
    EQ_KP(NavierStokesAdjoint, ShapeFunction8Square, ShapeFunction4Square, Gauss9Square, 4, E.up, E.r[0], E.r[1]);
    EQ_KP(NavierStokesBrinkmanBodyForce, ShapeFunction4Square, ShapeFunction4Square, Gauss4Square, 4, E.k);
}
static AtStart at(all);
