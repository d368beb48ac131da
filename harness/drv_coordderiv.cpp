#include "drv.h"
#include <cmath>
template<> struct IO<Axi> {
    static void put(double* o, const PosAxi& p) { o[0]=p.rho; o[1]=std::atan2(1., p.cotnu); o[2]=p.phi; }
    static void put(double* o, const GradAxi& g) { o[0]=g.drho; o[1]=g.dnu; o[2]=g.dphi; }
    static void put(double* o, const HessAxi& h) { o[0]=h.drho2; o[1]=h.dnu2; o[2]=h.dphi2; o[3]=h.drhodnu; o[4]=h.dnudphi; o[5]=h.drhodphi; }
};
// function of two prolate spheroidal coordinates (derivatives by phi are zero by definition)
struct AbsProl : public IScalarFunction<ProlSph> {
    static double f(const double* x, int a, int b) { int d[2]={a,b}; return agv_f(0, 2, d, x); }
    virtual void evalScalar(const PosProlSph& p, double* value, GradProlSph* g, HessProlSph* h, double) const {
        double x[2] = {p.lambda, p.nu};
        if(value) *value = f(x,0,0);
        if(g) { g->dlambda=f(x,1,0); g->dnu=f(x,0,1); g->dphi=0; }
        if(h) { h->dlambda2=f(x,2,0); h->dnu2=f(x,0,2); h->dlambdadnu=f(x,1,1); }
    }
};
struct AbsAxi : public IScalarFunction<Axi> {
    virtual void evalScalar(const PosAxi& p, double* value, GradAxi* g, HessAxi* h, double) const {
        double x[3]; IO<Axi>::put(x, p);
        typedef AbsScalar<Car> A;
        if(value) *value = A::f(0,x,0,0,0);
        if(g) { g->drho=A::f(0,x,1,0,0); g->dnu=A::f(0,x,0,1,0); g->dphi=A::f(0,x,0,0,1); }
        if(h) { h->drho2=A::f(0,x,2,0,0); h->dnu2=A::f(0,x,0,2,0); h->dphi2=A::f(0,x,0,0,2);
            h->drhodnu=A::f(0,x,1,1,0); h->drhodphi=A::f(0,x,1,0,1); h->dnudphi=A::f(0,x,0,1,1); }
    }
};
extern "C" {
#define PD(A,B) \
void d_pd_##A##_##B(const double* in, double* p, double* d, double* d2) { \
    IO<B>::put(p, toPosDeriv<A,B>(IO<A>::pos(in), (PosDerivT<A,B>*)d, (PosDeriv2T<A,B>*)d2)); }
PD(Car,Cyl) PD(Car,Sph) PD(Cyl,Car) PD(Cyl,Sph) PD(Sph,Car) PD(Sph,Cyl)
void d_pd_Cyl_Axi(const double* in, double D2, double* p, double* d, double* d2) {
    IO<Axi>::put(p, toPosDeriv<Cyl,Axi>(IO<Cyl>::pos(in), (PosDerivT<Cyl,Axi>*)d, (PosDeriv2T<Cyl,Axi>*)d2, Axi(D2))); }
void d_pd_Axi_Cyl(const double* in, double D2, double* p, double* d, double* d2) {   // in[1] is cot nu
    IO<Cyl>::put(p, toPosDeriv<Axi,Cyl>(PosAxi(in[0],in[1],in[2],Axi(D2)), (PosDerivT<Axi,Cyl>*)d, (PosDeriv2T<Axi,Cyl>*)d2)); }
void d_pd_Cyl_Prol(const double* in, double D, double* p, double* d, double* d2) {
    PosProlSph q = toPosDeriv<Cyl,ProlSph>(IO<Cyl>::pos(in), (PosDerivT<Cyl,ProlSph>*)d, (PosDeriv2T<Cyl,ProlSph>*)d2, ProlSph(D));
    p[0]=q.lambda; p[1]=q.nu; p[2]=q.phi; }
void d_pd_Prol_Cyl(const double* in, double D, double* p, double* d, double* d2) {
    IO<Cyl>::put(p, toPosDeriv<ProlSph,Cyl>(PosProlSph(in[0],in[1],in[2],ProlSph(D)), (PosDerivT<ProlSph,Cyl>*)d, (PosDeriv2T<ProlSph,Cyl>*)d2)); }

// evaluation of an abstract function given in coordinates E, output in coordinates O;
// mask selects the requested outputs (1 value, 2 gradient, 4 hessian)
#define EC(E,O) \
void d_ec_##E##_##O(const double* in, int mask, double* v, double* g, double* h) { \
    GradT<O> G; HessT<O> H; \
    evalAndConvert<E,O>(AbsScalar<E>(), IO<O>::pos(in), mask&1 ? v : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL); \
    if(mask&2) IO<O>::put(g, G); if(mask&4) IO<O>::put(h, H); }
EC(Cyl,Car) EC(Sph,Car) EC(Car,Cyl) EC(Sph,Cyl) EC(Car,Sph) EC(Cyl,Sph)
#define ES(O) \
void d_es_##O(const double* in, int mask, double* v, double* g, double* h) { \
    GradT<O> G; HessT<O> H; \
    evalAndConvertSph<O>(AbsFnc(), IO<O>::pos(in), mask&1 ? v : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL); \
    if(mask&2) IO<O>::put(g, G); if(mask&4) IO<O>::put(h, H); }
ES(Car) ES(Cyl) ES(Sph)
void d_ec_Axi_Cyl(const double* in, double D2, int mask, double* v, double* g, double* h) {
    GradCyl G; HessCyl H;
    evalAndConvert<Axi,Cyl>(AbsAxi(), IO<Cyl>::pos(in), mask&1 ? v : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, 0, Axi(D2));
    if(mask&2) IO<Cyl>::put(g, G); if(mask&4) IO<Cyl>::put(h, H); }
void d_ec_Prol_Cyl(const double* in, double D, int mask, double* v, double* g, double* h) {
    GradCyl G; HessCyl H;
    evalAndConvert<ProlSph,Cyl>(AbsProl(), IO<Cyl>::pos(in), mask&1 ? v : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, 0, ProlSph(D));
    if(mask&2) IO<Cyl>::put(g, G); if(mask&4) IO<Cyl>::put(h, H); }
#define TS(O) \
void d_ts_##O(const double* in, double D, int mask, double* v, double* g, double* h) { \
    GradT<O> G; HessT<O> H; \
    evalAndConvertTwoStep<ProlSph,Cyl,O>(AbsProl(), IO<O>::pos(in), ProlSph(D), mask&1 ? v : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL); \
    if(mask&2) IO<O>::put(g, G); if(mask&4) IO<O>::put(h, H); }
TS(Car) TS(Sph)
// conversion of gradient/hessian of a function of Cyl to Axi
void d_th_Cyl_Axi(const double* in, double D2, double* p, double* g, double* h) {
    PosDerivT<Axi,Cyl> d; PosDeriv2T<Axi,Cyl> d2;
    PosCyl c = toPosDeriv<Axi,Cyl>(PosAxi(in[0],in[1],in[2],Axi(D2)), &d, &d2);
    GradCyl G; HessCyl H; double v;
    AbsScalar<Cyl>().evalScalar(c, &v, &G, &H);
    IO<Cyl>::put(p, c);
    IO<Axi>::put(g, toGrad<Cyl,Axi>(G, d)); IO<Axi>::put(h, toHess<Cyl,Axi>(G, H, d, d2)); }
void d_tg_Cyl_Prol(const double* in, double D, double* p, double* g) {
    PosDerivT<ProlSph,Cyl> d;
    PosCyl c = toPosDeriv<ProlSph,Cyl>(PosProlSph(in[0],in[1],in[2],ProlSph(D)), &d, NULL);
    GradCyl G; double v;
    AbsScalar<Cyl>().evalScalar(c, &v, &G, NULL);
    IO<Cyl>::put(p, c);
    GradProlSph r = toGrad<Cyl,ProlSph>(G, d); g[0]=r.dlambda; g[1]=r.dnu; g[2]=r.dphi; }
}
