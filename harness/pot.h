// drivers for potentials: evaluation in three coordinate systems with any subset of outputs
#pragma once
#include "drv.h"
#include "potential_base.h"
#include <cmath>
namespace drv {
template<class CS> void ev(const potential::BasePotential& p, const double* x, double t, int mask, double* v, double* g, double* h) {
    GradT<CS> G; HessT<CS> H;
    p.eval(IO<CS>::pos(x), mask&1 ? v : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, t);
    if(mask&2) IO<CS>::put(g, G);
    if(mask&4) IO<CS>::put(h, H);
}
// values at symmetric images of the point x, if the declared symmetry says they are the same;
// w = {angle, theta', phi'} parametrises the images
inline int nsym() { return 7; }
template<class F> void symtest(const F& f, SymmetryType s, const double* x, const double* w, double* o) {
    o[0] = f(PosCar(x[0],x[1],x[2]));
    for(int i=1; i<7; i++) o[i] = o[0];
    if(isReflSymmetric(s)) o[1] = f(PosCar(-x[0],-x[1],-x[2]));
    if(isXReflSymmetric(s)) o[2] = f(PosCar(-x[0],x[1],x[2]));
    if(isYReflSymmetric(s)) o[3] = f(PosCar(x[0],-x[1],x[2]));
    if(isZReflSymmetric(s)) o[4] = f(PosCar(x[0],x[1],-x[2]));
    if(isZRotSymmetric(s)) o[5] = f(PosCar(x[0]*std::cos(w[0])-x[1]*std::sin(w[0]), x[0]*std::sin(w[0])+x[1]*std::cos(w[0]), x[2]));
    if(isRotSymmetric(s)) {
        double r = std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2]);
        o[6] = f(PosCar(r*std::sin(w[1])*std::cos(w[2]), r*std::sin(w[1])*std::sin(w[2]), r*std::cos(w[1])));
    }
}
struct FDens { const potential::BaseDensity& d; double t; FDens(const potential::BaseDensity& _d, double _t): d(_d), t(_t) {}
    double operator()(const PosCar& p) const { return d.density(p, t); } };
struct FPot { const potential::BasePotential& d; double t; FPot(const potential::BasePotential& _d, double _t): d(_d), t(_t) {}
    double operator()(const PosCar& p) const { double v; d.eval(p, &v, (GradCar*)NULL, (HessCar*)NULL, t); return v; } };
}
// potential over an abstract smooth function of the native coordinates
struct AbsPotCar : public potential::BasePotentialCar {
    int id, sym; double tdep;
    AbsPotCar(int _id, int _sym=0) : id(_id), sym(_sym) {}
    virtual SymmetryType symmetry() const { return (SymmetryType)sym; }
    virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    virtual void evalCar(const PosCar& p, double* v, GradCar* g, HessCar* h, double t) const { AbsScalar4<Car>(id).eval(p, t, v, g, h); }
};
struct AbsPotCyl : public potential::BasePotentialCyl {
    int id, sym;
    AbsPotCyl(int _id, int _sym=0) : id(_id), sym(_sym) {}
    virtual SymmetryType symmetry() const { return (SymmetryType)sym; }
    virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    virtual void evalCyl(const PosCyl& p, double* v, GradCyl* g, HessCyl* h, double t) const { AbsScalar4<Cyl>(id).eval(p, t, v, g, h); }
};
struct AbsPotSph : public potential::BasePotentialSph {
    int id, sym;
    AbsPotSph(int _id, int _sym=0) : id(_id), sym(_sym) {}
    virtual SymmetryType symmetry() const { return (SymmetryType)sym; }
    virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    virtual void evalSph(const PosSph& p, double* v, GradSph* g, HessSph* h, double t) const { AbsScalar4<Sph>(id).eval(p, t, v, g, h); }
};
// density over an abstract function of (x, y, z, t)
struct AbsDens : public potential::BaseDensity {
    int id, sym;
    AbsDens(int _id, int _sym=0) : id(_id), sym(_sym) {}
    virtual SymmetryType symmetry() const { return (SymmetryType)sym; }
    virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    static double f(int id, const PosCar& p, double t) { double x[4] = {p.x,p.y,p.z,t}; int d[4]={0,0,0,0}; return agv_f(id, 4, d, x); }
    virtual double densityCar(const PosCar& p, double t) const { return f(id, p, t); }
    virtual double densityCyl(const PosCyl& p, double t) const { return f(id, toPosCar(p), t); }
    virtual double densitySph(const PosSph& p, double t) const { return f(id, toPosCar(p), t); }
};
