#include "pot.h"
using namespace potential;
using namespace drv;
namespace {
struct MonoPot : public BasePotentialCar {   // x^a y^b z^c
    int a, b, c, sym;
    MonoPot(int _sym, int _a, int _b, int _c) : a(_a), b(_b), c(_c), sym(_sym) {}
    virtual SymmetryType symmetry() const { return (SymmetryType)sym; }
    virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    static double pw(double x, int n) { double r = 1; for(int i=0; i<n; i++) r *= x; return r; }
    static double d1(double x, int n) { return n ? n * pw(x,n-1) : 0; }
    static double d2(double x, int n) { return n>1 ? n * (n-1) * pw(x,n-2) : 0; }
    virtual void evalCar(const PosCar& p, double* v, GradCar* g, HessCar* h, double) const {
        if(v) *v = pw(p.x,a) * pw(p.y,b) * pw(p.z,c);
        if(g) { g->dx = d1(p.x,a) * pw(p.y,b) * pw(p.z,c); g->dy = pw(p.x,a) * d1(p.y,b) * pw(p.z,c); g->dz = pw(p.x,a) * pw(p.y,b) * d1(p.z,c); }
        if(h) { h->dx2 = d2(p.x,a) * pw(p.y,b) * pw(p.z,c); h->dy2 = pw(p.x,a) * d2(p.y,b) * pw(p.z,c); h->dz2 = pw(p.x,a) * pw(p.y,b) * d2(p.z,c);
            h->dxdy = d1(p.x,a) * d1(p.y,b) * pw(p.z,c); h->dydz = pw(p.x,a) * d1(p.y,b) * d1(p.z,c); h->dxdz = d1(p.x,a) * pw(p.y,b) * d1(p.z,c); }
    }
};
struct MonoDens : public BaseDensity {
    MonoPot m;
    MonoDens(int s, int a, int b, int c) : m(s,a,b,c) {}
    virtual SymmetryType symmetry() const { return (SymmetryType)m.sym; }
    virtual std::string name() const { return ""; }
    virtual double densityCar(const PosCar& p, double) const { return m.pw(p.x,m.a) * m.pw(p.y,m.b) * m.pw(p.z,m.c); }
    virtual double densityCyl(const PosCyl& p, double t) const { return densityCar(toPosCar(p), t); }
    virtual double densitySph(const PosSph& p, double t) const { return densityCar(toPosCar(p), t); }
};
}
extern "C" {
#define AP(N) \
void d_ap##N##_Car(const double* x, double t, int mask, double* v, double* g, double* h) { AbsPot##N p(0); ev<Car>(p, x, t, mask, v, g, h); } \
void d_ap##N##_Cyl(const double* x, double t, int mask, double* v, double* g, double* h) { AbsPot##N p(0); ev<Cyl>(p, x, t, mask, v, g, h); } \
void d_ap##N##_Sph(const double* x, double t, int mask, double* v, double* g, double* h) { AbsPot##N p(0); ev<Sph>(p, x, t, mask, v, g, h); } \
double d_ap##N##_rhoCar(const double* x, double t) { AbsPot##N p(0); return ((BasePotential&)p).density(IO<Car>::pos(x), t); } \
double d_ap##N##_rhoCyl(const double* x, double t) { AbsPot##N p(0); return ((BasePotential&)p).density(IO<Cyl>::pos(x), t); } \
double d_ap##N##_rhoSph(const double* x, double t) { AbsPot##N p(0); return ((BasePotential&)p).density(IO<Sph>::pos(x), t); }
AP(Car) AP(Cyl) AP(Sph)
// spherically symmetric potential over an abstract function of radius
#define FW(C) \
void d_fw_##C(const double* x, int mask, double* v, double* g, double* h) { AbsFnc f(0); FunctionToPotentialWrapper p(f); ev<C>(p, x, 0, mask, v, g, h); } \
double d_fw_rho##C(const double* x) { AbsFnc f(0); FunctionToPotentialWrapper p(f); return ((BasePotential&)p).density(IO<C>::pos(x)); } \
double d_fd_rho##C(const double* x) { AbsFnc f(0); FunctionToDensityWrapper p(f); return ((BaseDensity&)p).density(IO<C>::pos(x)); }
FW(Car) FW(Cyl) FW(Sph)
double d_fw_mass(double r) { AbsFnc f(0); FunctionToPotentialWrapper p(f); return p.enclosedMass(r); }
void d_energy(const double* x, const double* v, double t, double* o) {   // energies of Cartesian, cylindrical, spherical points
    AbsPotCar a(0); AbsPotCyl b(0); AbsPotSph c(0);
    o[0] = totalEnergy(a, PosVelCar(x[0],x[1],x[2],v[0],v[1],v[2]), t);
    o[1] = totalEnergy(b, PosVelCyl(x[0],x[1],x[2],v[0],v[1],v[2]), t);
    o[2] = totalEnergy(c, PosVelSph(x[0],x[1],x[2],v[0],v[1],v[2]), t);
}
// on-the-fly averages
void d_sph(int sym, double r, int mask, double* o) { AbsPotCyl p(0, sym); Sphericalized<BasePotential> s(p);
    s.evalDeriv(r, mask&1 ? o : NULL, mask&2 ? o+1 : NULL, mask&4 ? o+2 : NULL); }
double d_sphrho(int sym, double r) { AbsDens p(0, sym); return Sphericalized<BaseDensity>(p).value(r); }
void d_sphmono(int s, int a, int b, int c, double r, double* o) { MonoPot p(s,a,b,c); MonoDens d(s,a,b,c);
    Sphericalized<BasePotential>(p).evalDeriv(r, o, NULL, NULL);
    o[1] = Sphericalized<BaseDensity>(d).value(r); }
void d_sphmonod(int s, int a, int b, int c, double r, double* o) { MonoPot p(s,a,b,c); Sphericalized<BasePotential>(p).evalDeriv(r, NULL, o, o+1); }
void d_axi(int sym, const double* x, int mask, double* v, double* g, double* h) { AbsPotCyl p(0, sym); Axisymmetrized<BasePotential> s(p); ev<Cyl>(s, x, 0, mask, v, g, h); }
double d_axirho(int sym, const double* x) { AbsDens p(0, sym); Axisymmetrized<BaseDensity> s(p); return ((BaseDensity&)s).density(IO<Cyl>::pos(x)); }
double d_axirhoCar(int sym, const double* x) { AbsDens p(0, sym); Axisymmetrized<BaseDensity> s(p); return ((BaseDensity&)s).density(IO<Car>::pos(x)); }
void d_aximono(int s, int a, int b, int c, double R, double z, double* o) { MonoPot p(s,a,b,c); MonoDens d(s,a,b,c); double x[3] = {R,z,0};
    Axisymmetrized<BasePotential> sp(p); Axisymmetrized<BaseDensity> sd(d);
    ev<Cyl>(sp, x, 0, 1, o, 0, 0);
    o[1] = ((BaseDensity&)sd).density(PosCyl(R,z,0)); }
double d_pmass(int sym, double r) { AbsPotCyl p(0, sym); return p.enclosedMass(r); }
double d_unscale(const double* v, double* o) { double jac; PosCyl p = unscaleCoords(v, &jac); IO<Cyl>::put(o, p); return jac; }
}
