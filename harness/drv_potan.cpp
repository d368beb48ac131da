#include "pot.h"
#include "potential_analytic.h"
using namespace potential;
using namespace drv;
extern "C" {
#define POT(name, CTOR) \
void d_##name##_Car(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { CTOR; ev<Car>(pot, x, t, mask, v, g, h); } \
void d_##name##_Cyl(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { CTOR; ev<Cyl>(pot, x, t, mask, v, g, h); } \
void d_##name##_Sph(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { CTOR; ev<Sph>(pot, x, t, mask, v, g, h); } \
double d_##name##_rhoCar(const double* P, const double* x, double t) { CTOR; return ((const BasePotential&)pot).density(IO<Car>::pos(x), t); } \
double d_##name##_rhoCyl(const double* P, const double* x, double t) { CTOR; return ((const BasePotential&)pot).density(IO<Cyl>::pos(x), t); } \
double d_##name##_rhoSph(const double* P, const double* x, double t) { CTOR; return ((const BasePotential&)pot).density(IO<Sph>::pos(x), t); } \
double d_##name##_mass(const double* P, double r) { CTOR; return pot.enclosedMass(r); } \
double d_##name##_total(const double* P) { CTOR; return pot.totalMass(); } \
void d_##name##_sym(const double* P, const double* x, double t, const double* w, double* o, double* od) { CTOR; \
    symtest(FPot(pot, t), pot.symmetry(), x, w, o); symtest(FDens(pot, t), pot.symmetry(), x, w, od); }
POT(Plummer, Plummer pot(P[0], P[1]))
POT(Isochrone, Isochrone pot(P[0], P[1]))
POT(NFW, NFW pot(P[0], P[1]))
POT(MiyamotoNagai, MiyamotoNagai pot(P[0], P[1], P[2]))
POT(Logarithmic, Logarithmic pot(P[0], P[1], P[2], P[3], P[4]))
POT(Harmonic, Harmonic pot(P[0], P[1], P[2]))
POT(KeplerBinary, KeplerBinary pot(KeplerBinaryParams(P[0], P[1], P[2], P[3], P[4])))
void d_keplerOrbit(const double* P, double t, double* x, double* y, double* vx, double* vy)
{ KeplerBinaryParams(P[0], P[1], P[2], P[3], P[4]).keplerOrbit(t, x, y, vx, vy); }
double d_keplerPot(const double* P, const double* x, double t)
{ return KeplerBinaryParams(P[0], P[1], P[2], P[3], P[4]).potential(PosCar(x[0],x[1],x[2]), t); }
}
