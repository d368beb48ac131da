#include "pot.h"
#include "potential_composite.h"
#include "math_spline.h"
using namespace potential;
using namespace drv;
typedef std::vector<double> vec;
namespace {
// s[0] + s[1] * time (linear extrapolation from the single knot)
math::CubicSpline lin(const double* s) { return math::CubicSpline(vec(1, 0.), vec(1, s[0]), vec(1, s[1])); }
// inner objects with settable masses; the symmetry is an argument
struct InPot : public AbsPotCar { double m; InPot(int id, int sym, double _m) : AbsPotCar(id, sym), m(_m) {}
    virtual double totalMass() const { return m; } virtual double enclosedMass(double r) const { return m * AbsFnc::f(7, r, 0); }
    virtual double densityCar(const PosCar& p, double t) const { return AbsDens::f(id+4, p, t); }
    virtual double densityCyl(const PosCyl& p, double t) const { return AbsDens::f(id+4, toPosCar(p), t); }
    virtual double densitySph(const PosSph& p, double t) const { return AbsDens::f(id+4, toPosCar(p), t); } };
struct InPotSS : public BasePotentialSphericallySymmetric { int id; InPotSS(int i) : id(i) {} virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    virtual void evalDeriv(double r, double* v, double* d, double* d2) const { AbsFnc(id).evalDeriv(r, v, d, d2); } };
struct InDens : public AbsDens { double m; InDens(int id, int sym, double _m) : AbsDens(id, sym), m(_m) {}
    virtual double totalMass() const { return m; } virtual double enclosedMass(double r) const { return m * AbsFnc::f(7, r, 0); } };
template<class CS> void many(const BaseDensity& d, int n, const double* x, double t, double* o);
template<> void many<Car>(const BaseDensity& d, int n, const double* x, double t, double* o) {
    PosCar p[4]; for(int i=0; i<n; i++) p[i] = IO<Car>::pos(x+3*i); d.evalmanyDensityCar(n, p, o, t); }
template<> void many<Cyl>(const BaseDensity& d, int n, const double* x, double t, double* o) {
    PosCyl p[4]; for(int i=0; i<n; i++) p[i] = IO<Cyl>::pos(x+3*i); d.evalmanyDensityCyl(n, p, o, t); }
template<> void many<Sph>(const BaseDensity& d, int n, const double* x, double t, double* o) {
    PosSph p[4]; for(int i=0; i<n; i++) p[i] = IO<Sph>::pos(x+3*i); d.evalmanyDensitySph(n, p, o, t); }
}
extern "C" {
// name, constructor of a modified potential and of a modified density from parameters P
#define MOD(name, CTOR, CTORD) \
void d_##name##_Car(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { CTOR; ev<Car>(pot, x, t, mask, v, g, h); } \
void d_##name##_Cyl(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { CTOR; ev<Cyl>(pot, x, t, mask, v, g, h); } \
void d_##name##_Sph(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { CTOR; ev<Sph>(pot, x, t, mask, v, g, h); } \
double d_##name##_rhoCar(const double* P, const double* x, double t) { CTOR; return ((const BasePotential&)pot).density(IO<Car>::pos(x), t); } \
double d_##name##_rhoCyl(const double* P, const double* x, double t) { CTOR; return ((const BasePotential&)pot).density(IO<Cyl>::pos(x), t); } \
double d_##name##_rhoSph(const double* P, const double* x, double t) { CTOR; return ((const BasePotential&)pot).density(IO<Sph>::pos(x), t); } \
void d_##name##_manyCar(const double* P, const double* x, double t, int n, double* o) { CTOR; many<Car>(pot, n, x, t, o); } \
void d_##name##_manyCyl(const double* P, const double* x, double t, int n, double* o) { CTOR; many<Cyl>(pot, n, x, t, o); } \
void d_##name##_manySph(const double* P, const double* x, double t, int n, double* o) { CTOR; many<Sph>(pot, n, x, t, o); } \
double d_##name##D_rhoCar(const double* P, const double* x, double t) { CTORD; return ((const BaseDensity&)pot).density(IO<Car>::pos(x), t); } \
double d_##name##D_rhoCyl(const double* P, const double* x, double t) { CTORD; return ((const BaseDensity&)pot).density(IO<Cyl>::pos(x), t); } \
double d_##name##D_rhoSph(const double* P, const double* x, double t) { CTORD; return ((const BaseDensity&)pot).density(IO<Sph>::pos(x), t); } \
void d_##name##D_manyCar(const double* P, const double* x, double t, int n, double* o) { CTORD; many<Car>(pot, n, x, t, o); } \
void d_##name##D_manyCyl(const double* P, const double* x, double t, int n, double* o) { CTORD; many<Cyl>(pot, n, x, t, o); } \
void d_##name##D_manySph(const double* P, const double* x, double t, int n, double* o) { CTORD; many<Sph>(pot, n, x, t, o); } \
double d_##name##_mass(const double* P) { CTOR; return pot.totalMass(); } \
double d_##name##D_mass(const double* P) { CTORD; return pot.totalMass(); } \
double d_##name##_sym(const double* P, int s) { PtrPotential in(new InPot(0, s, 1)); PtrDensity ind(new InDens(0, s, 1)); return symof_##name(P, in, ind); }
#define IN PtrPotential in(new InPot(0, 0, P[9]))
#define IND PtrDensity in(new InDens(4, 0, P[9]))
static double symof_Shifted(const double* P, PtrPotential p, PtrDensity d) {
    return Shifted<BasePotential>(p, lin(P), lin(P+2), lin(P+4)).symmetry() + 1024 * Shifted<BaseDensity>(d, lin(P), lin(P+2), lin(P+4)).symmetry(); }
static double symof_Tilted(const double* P, PtrPotential p, PtrDensity d) {
    return Tilted<BasePotential>(p, P[0], P[1], P[2]).symmetry() + 1024 * Tilted<BaseDensity>(d, P[0], P[1], P[2]).symmetry(); }
static double symof_Rotating(const double* P, PtrPotential p, PtrDensity d) {
    return Rotating<BasePotential>(p, lin(P)).symmetry() + 1024 * Rotating<BaseDensity>(d, lin(P)).symmetry(); }
static double symof_Scaled(const double* P, PtrPotential p, PtrDensity d) {
    return Scaled<BasePotential>(p, lin(P), lin(P+2)).symmetry() + 1024 * Scaled<BaseDensity>(d, lin(P), lin(P+2)).symmetry(); }
MOD(Shifted, IN; Shifted<BasePotential> pot(in, lin(P), lin(P+2), lin(P+4)), IND; Shifted<BaseDensity> pot(in, lin(P), lin(P+2), lin(P+4)))
MOD(Tilted, IN; Tilted<BasePotential> pot(in, P[0], P[1], P[2]), IND; Tilted<BaseDensity> pot(in, P[0], P[1], P[2]))
MOD(Rotating, IN; Rotating<BasePotential> pot(in, lin(P)), IND; Rotating<BaseDensity> pot(in, lin(P)))
MOD(Scaled, IN; Scaled<BasePotential> pot(in, lin(P), lin(P+2)), IND; Scaled<BaseDensity> pot(in, lin(P), lin(P+2)))
void d_encmass(const double* P, double r, double* o) {
    IN; PtrDensity ind(new InDens(4, 0, P[9]));
    o[0] = Tilted<BasePotential>(in, P[0], P[1], P[2]).enclosedMass(r);
    o[1] = Tilted<BaseDensity>(ind, P[0], P[1], P[2]).enclosedMass(r);
    o[2] = Rotating<BasePotential>(in, lin(P)).enclosedMass(r);
    o[3] = Rotating<BaseDensity>(ind, lin(P)).enclosedMass(r);
    o[4] = Scaled<BasePotential>(in, lin(P), lin(P+2)).enclosedMass(r);
    o[5] = Scaled<BaseDensity>(ind, lin(P), lin(P+2)).enclosedMass(r);
}
void d_tilt(const double* P, const double* x, double* o) { Orientation r(P[0], P[1], P[2]); IO<Car>::put(o, r.toRotated(PosCar(x[0],x[1],x[2]))); }
// composites: components in Cartesian, cylindrical, spherical, spherically symmetric, nested composite
static Composite comp(int which) {
    std::vector<PtrPotential> c;
    if(which & 1) c.push_back(PtrPotential(new AbsPotCar(0)));
    if(which & 2) c.push_back(PtrPotential(new AbsPotCyl(1)));
    if(which & 4) c.push_back(PtrPotential(new AbsPotSph(2)));
    if(which & 8) c.push_back(PtrPotential(new InPotSS(3)));
    if(which & 16) c.push_back(PtrPotential(new Composite(std::vector<PtrPotential>(1, PtrPotential(new AbsPotCyl(5))))));
    if(which & 32) c.push_back(PtrPotential(new AbsPotCyl(6)));
    if(which & 64) c.push_back(PtrPotential(new AbsPotCar(7)));
    return Composite(c);
}
void d_comp_Car(int which, const double* x, double t, int mask, double* v, double* g, double* h) { Composite pot = comp(which); ev<Car>(pot, x, t, mask, v, g, h); }
void d_comp_Cyl(int which, const double* x, double t, int mask, double* v, double* g, double* h) { Composite pot = comp(which); ev<Cyl>(pot, x, t, mask, v, g, h); }
void d_comp_Sph(int which, const double* x, double t, int mask, double* v, double* g, double* h) { Composite pot = comp(which); ev<Sph>(pot, x, t, mask, v, g, h); }
static CompositeDensity compd(int n, const int* s, const double* m) { std::vector<PtrDensity> c;
    for(int i=0; i<n; i++) c.push_back(PtrDensity(new InDens(4+i, s ? s[i] : 0, m ? m[i] : 1)));
    return CompositeDensity(c); }
static Composite compp(int n, const int* s, const double* m) { std::vector<PtrPotential> c;
    for(int i=0; i<n; i++) c.push_back(PtrPotential(new InPot(i, s ? s[i] : 0, m ? m[i] : 1)));
    return Composite(c); }
#define RHO(CS) \
double d_compd_rho##CS(const double* x, double t) { CompositeDensity d = compd(3,0,0); return ((BaseDensity&)d).density(IO<CS>::pos(x), t); } \
double d_compp_rho##CS(const double* x, double t) { Composite d = compp(3,0,0); return ((BasePotential&)d).density(IO<CS>::pos(x), t); } \
void d_compd_many##CS(const double* x, double t, int n, double* o) { CompositeDensity d = compd(3,0,0); many<CS>(d, n, x, t, o); } \
void d_compp_many##CS(const double* x, double t, int n, double* o) { Composite d = compp(3,0,0); many<CS>(d, n, x, t, o); }
RHO(Car) RHO(Cyl) RHO(Sph)
double d_compd_mass(const double* m) { return compd(3,0,m).totalMass(); }
double d_compp_mass(const double* m) { return compp(3,0,m).totalMass(); }
double d_comp_sym(int a, int b) { int s[2] = {a, b}; return compd(2,s,0).symmetry() + 1024. * compp(2,s,0).symmetry(); }
// evolving potential
static Evolving evol(int n, int lin, const double* T, int a=0, int b=0) { std::vector<PtrPotential> c;
    for(int i=0; i<n; i++) c.push_back(PtrPotential(new InPot(i, i==0 ? a : b, 1)));
    return Evolving(std::vector<double>(T, T+n), c, lin!=0); }
void d_evol_Car(int n, int lin, const double* x, double t, const double* T, int mask, double* o) { Evolving pot = evol(n, lin, T); ev<Car>(pot, x, t, mask, o, o+1, o+4); }
double d_evol_rho(int n, int lin, const double* x, double t, const double* T) { Evolving pot = evol(n, lin, T); return ((BasePotential&)pot).density(IO<Car>::pos(x), t); }
double d_evol_sym(int a, int b, const double* T) { return evol(2, 0, T, a, b).symmetry(); }
void d_unif_Car(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { UniformAcceleration pot(lin(P), lin(P+2), lin(P+4)); ev<Car>(pot, x, t, mask, v, g, h); }
void d_unif_Cyl(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { UniformAcceleration pot(lin(P), lin(P+2), lin(P+4)); ev<Cyl>(pot, x, t, mask, v, g, h); }
void d_unif_Sph(const double* P, const double* x, double t, int mask, double* v, double* g, double* h) { UniformAcceleration pot(lin(P), lin(P+2), lin(P+4)); ev<Sph>(pot, x, t, mask, v, g, h); }
}
