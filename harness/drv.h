// helpers shared by the driver functions: pack/unpack the coordinate structures
#pragma once
#include "coord.h"
using namespace coord;
extern "C" double agv_f(int id, int n, const int* d, const double* x);

template<class CS> struct IO;
template<> struct IO<Car> {
    static PosCar pos(const double* p) { return PosCar(p[0],p[1],p[2]); }
    static PosVelCar pv(const double* p) { return PosVelCar(p[0],p[1],p[2],p[3],p[4],p[5]); }
    static void put(double* o, const PosCar& p) { o[0]=p.x; o[1]=p.y; o[2]=p.z; }
    static void put(double* o, const GradCar& g) { o[0]=g.dx; o[1]=g.dy; o[2]=g.dz; }
    static void put(double* o, const HessCar& h) { o[0]=h.dx2; o[1]=h.dy2; o[2]=h.dz2; o[3]=h.dxdy; o[4]=h.dydz; o[5]=h.dxdz; }
};
template<> struct IO<Cyl> {
    static PosCyl pos(const double* p) { return PosCyl(p[0],p[1],p[2]); }
    static PosVelCyl pv(const double* p) { return PosVelCyl(p[0],p[1],p[2],p[3],p[4],p[5]); }
    static void put(double* o, const PosCyl& p) { o[0]=p.R; o[1]=p.z; o[2]=p.phi; }
    static void put(double* o, const GradCyl& g) { o[0]=g.dR; o[1]=g.dz; o[2]=g.dphi; }
    static void put(double* o, const HessCyl& h) { o[0]=h.dR2; o[1]=h.dz2; o[2]=h.dphi2; o[3]=h.dRdz; o[4]=h.dzdphi; o[5]=h.dRdphi; }
};
template<> struct IO<Sph> {
    static PosSph pos(const double* p) { return PosSph(p[0],p[1],p[2]); }
    static PosVelSph pv(const double* p) { return PosVelSph(p[0],p[1],p[2],p[3],p[4],p[5]); }
    static void put(double* o, const PosSph& p) { o[0]=p.r; o[1]=p.theta; o[2]=p.phi; }
    static void put(double* o, const GradSph& g) { o[0]=g.dr; o[1]=g.dtheta; o[2]=g.dphi; }
    static void put(double* o, const HessSph& h) { o[0]=h.dr2; o[1]=h.dtheta2; o[2]=h.dphi2; o[3]=h.drdtheta; o[4]=h.dthetadphi; o[5]=h.drdphi; }
};

// abstract smooth scalar function F_id of the three coordinates of CS, with its derivatives
template<class CS> struct AbsScalar : public IScalarFunction<CS> {
    int id;
    explicit AbsScalar(int _id=0) : id(_id) {}
    static double f(int id, const double* x, int a, int b, int c) { int d[3]={a,b,c}; return agv_f(id, 3, d, x); }
    virtual void evalScalar(const PosT<CS>& pos, double* value=NULL, GradT<CS>* deriv=NULL, HessT<CS>* deriv2=NULL, double /*time*/=0) const {
        double x[3];
        IO<CS>::put(x, pos);
        if(value) *value = f(id,x,0,0,0);
        if(deriv) { double* g = (double*)deriv; g[0]=f(id,x,1,0,0); g[1]=f(id,x,0,1,0); g[2]=f(id,x,0,0,1); }
        if(deriv2) { double* h = (double*)deriv2;
            h[0]=f(id,x,2,0,0); h[1]=f(id,x,0,2,0); h[2]=f(id,x,0,0,2);
            h[3]=f(id,x,1,1,0); h[4]=f(id,x,0,1,1); h[5]=f(id,x,1,0,1); }
    }
};
// abstract smooth scalar function of the coordinates of CS and time
template<class CS> struct AbsScalar4 {
    int id;
    explicit AbsScalar4(int _id=0) : id(_id) {}
    double f(const double* x, int a, int b, int c) const { int d[4]={a,b,c,0}; return agv_f(id, 4, d, x); }
    void eval(const PosT<CS>& pos, double t, double* value, GradT<CS>* deriv, HessT<CS>* deriv2) const {
        double x[4];
        IO<CS>::put(x, pos);
        x[3] = t;
        if(value) *value = f(x,0,0,0);
        if(deriv) { double* g = (double*)deriv; g[0]=f(x,1,0,0); g[1]=f(x,0,1,0); g[2]=f(x,0,0,1); }
        if(deriv2) { double* h = (double*)deriv2;
            h[0]=f(x,2,0,0); h[1]=f(x,0,2,0); h[2]=f(x,0,0,2);
            h[3]=f(x,1,1,0); h[4]=f(x,0,1,1); h[5]=f(x,1,0,1); }
    }
};
// abstract smooth function of one variable
struct AbsFnc : public math::IFunction {
    int id;
    explicit AbsFnc(int _id=0) : id(_id) {}
    static double f(int id, double x, int k) { return agv_f(id, 1, &k, &x); }
    virtual void evalDeriv(const double x, double* v=NULL, double* d=NULL, double* d2=NULL) const {
        if(v) *v = f(id,x,0);
        if(d) *d = f(id,x,1);
        if(d2) *d2 = f(id,x,2);
    }
    virtual unsigned int numDerivs() const { return 2; }
};
