// drivers for the Staeckel action finders (C15)
#include "coord.h"
#include "potential_perfect_ellipsoid.h"
#include "math_base.h"
namespace math { __attribute__((noinline)) double integrateGL(const IFunction& fnc, double x1, double x2, int N);
                 __attribute__((noinline)) double findRoot(const IFunction& fnc, double x1, double x2, double tol); }
namespace actions { namespace {
class AxisymFunctionBase; __attribute__((noinline)) unsigned int integrOrder(double R1overR2); struct AxisymIntLimits; struct AxisymActionDerivatives; struct AxisymIntDerivatives; struct AxisymGenFuncDerivatives;
__attribute__((noinline)) AxisymIntLimits findIntegrationLimitsAxisym(const AxisymFunctionBase& fnc);
__attribute__((noinline)) AxisymActionDerivatives computeActionDerivatives(const AxisymFunctionBase& fnc, const AxisymIntLimits& lim);
__attribute__((noinline)) AxisymIntDerivatives computeIntDerivatives(const AxisymFunctionBase& fnc, const AxisymIntLimits& lim);
__attribute__((noinline)) AxisymGenFuncDerivatives computeGenFuncDerivatives(const AxisymFunctionBase& fnc, const AxisymIntLimits& lim);
} }
#include "actions_staeckel.cpp"
#include "pot.h"
using namespace actions;
using namespace drv;
namespace {
// potential symmetric in z
struct Abs : public AbsPotCyl { Abs() : AbsPotCyl(1, coord::ST_AXISYMMETRIC) {}
    virtual void evalCyl(const PosCyl& p, double* v, GradCyl* g, HessCyl* h, double t) const {
        AbsPotCyl::evalCyl(PosCyl(p.R, p.z<0 ? -p.z : p.z, p.phi), v, g, h, t);
        if(p.z<0) { if(g) g->dz = -g->dz; if(h) { h->dRdz = -h->dRdz; h->dzdphi = -h->dzdphi; } } }
};
// abstract auxiliary function F (id 5)
struct AbsAux : public AxisymFunctionBase {
    AbsAux(const coord::PosVelProlSph& p, double E, double Lz, double I3) : AxisymFunctionBase(p, E, Lz, I3) {}
    virtual void evalDeriv(const double t, double* v, double* d, double* d2) const {
        int i[1]; double x[1] = {t};
        if(v) { i[0] = 0; *v = agv_f(5, 1, i, x); }
        if(d) { i[0] = 1; *d = agv_f(5, 1, i, x); }
        if(d2) { i[0] = 2; *d2 = agv_f(5, 1, i, x); } }
};
// auxiliary function of an abstract Staeckel potential: G = function 6
struct AbsG : public math::IFunction {
    virtual unsigned int numDerivs() const { return 2; }
    virtual void evalDeriv(const double t, double* v, double* d, double* d2) const {
        int i[1]; double x[1] = {t};
        if(v) { i[0] = 0; *v = agv_f(6, 1, i, x); }
        if(d) { i[0] = 1; *d = agv_f(6, 1, i, x); }
        if(d2) { i[0] = 2; *d2 = agv_f(6, 1, i, x); } }
};
coord::PosVelProlSph prol(const double* p) { return coord::PosVelProlSph(coord::PosProlSph(p[1], p[2], p[3], coord::ProlSph(p[0])), p[4], p[5], p[6]); }
AxisymIntLimits lims(const double* l) { AxisymIntLimits L; L.lambda_min = l[0]; L.lambda_max = l[1]; L.nu_min = l[2]; L.nu_max = l[3]; L.integrOrder = 1; return L; }
}
extern "C" {
// prolate spheroidal to cylindrical: p = {focal distance, lambda, nu, phi, derivatives by time}
void d_cyl(const double* p, double* o) {
    coord::PosCyl c = coord::toPosCyl(prol(p)); o[0] = c.R; o[1] = c.z; o[2] = c.phi; }
// integrals of motion and the auxiliary function at lambda, |nu| of this point: kind 0 - perfect ellipsoid with given axes, 1 - an abstract potential
void d_int(int kind, const double* q, const double* x, double* o) {
    coord::PosVelCyl c(x[0],x[1],x[2],x[3],x[4],x[5]);
    if(kind == 0) {
        potential::OblatePerfectEllipsoid P(q[0], q[1], q[2]);
        AxisymFunctionStaeckel f = findIntegralsOfMotionOblatePerfectEllipsoid(P, c);
        o[0] = f.E; o[1] = f.Lz; o[2] = f.I3; o[3] = f.point.lambda; o[4] = f.point.nu; o[5] = f.point.lambdadot; o[6] = f.point.nudot;
        o[7] = f(f.point.lambda); o[8] = f(fabs(f.point.nu));
    } else {
        Abs P;
        AxisymFunctionFudge f = findIntegralsOfMotionAxisymFudge(P, c, coord::ProlSph(q[1]));
        o[0] = f.E; o[1] = f.Lz; o[2] = f.I3; o[3] = f.point.lambda; o[4] = f.point.nu; o[5] = f.point.lambdadot; o[6] = f.point.nudot;
        o[7] = f(f.point.lambda); o[8] = f(fabs(f.point.nu)); o[9] = f.flambda; o[10] = f.fnu;
    } }
void d_pe(const double* q, const double* x, double* o) {
    potential::OblatePerfectEllipsoid P(q[0], q[1], q[2]); const potential::BasePotential& B = P; o[0] = B.value(coord::PosCyl(x[0],x[1],x[2])); o[1] = P.coordsys().Delta2; }
void d_G(const double* q, double tau, int mask, double* o) {
    potential::OblatePerfectEllipsoid P(q[0], q[1], q[2]); P.evalDeriv(tau, mask&1 ? o : NULL, mask&2 ? o+1 : NULL, mask&4 ? o+2 : NULL); }
void d_pes(const double* q, const double* p, int mask, double* o) {
    potential::OblatePerfectEllipsoid P(q[0], q[1], q[2]); coord::GradProlSph g; coord::HessProlSph h;
    const coord::IScalarFunction<coord::ProlSph>& F = P;
    F.evalScalar(coord::PosProlSph(p[0], p[1], p[2], P.coordsys()), mask&1 ? o : NULL, mask&2 ? &g : NULL, mask&4 ? &h : NULL);
    if(mask&2) { o[1] = g.dlambda; o[2] = g.dnu; o[3] = g.dphi; }
    if(mask&4) { o[4] = h.dlambda2; o[5] = h.dnu2; o[6] = h.dlambdadnu; } }
void d_axi(const double* q, const double* x, int mask, double* o) {
    potential::PerfectEllipsoid P(q[0], q[1], q[2]); coord::GradAxi g; coord::HessAxi h;
    P.evalAxi(coord::PosAxi(x[0], x[1], x[2], coord::Axi(x[3])), mask&1 ? o : NULL, mask&2 ? &g : NULL, mask&4 ? &h : NULL);
    if(mask&2) { o[1] = g.drho; o[2] = g.dnu; o[3] = g.dphi; }
    if(mask&4) { o[4] = h.drho2; o[5] = h.dnu2; o[6] = h.drhodnu; } }
void d_pecyl(const double* q, const double* x, int mask, double* o) {
    potential::PerfectEllipsoid P(q[0], q[1], q[2]); const potential::BasePotential& B = P; coord::GradCyl g; coord::HessCyl h;
    B.eval(coord::PosCyl(x[0], x[1], x[2]), mask&1 ? o : NULL, mask&2 ? &g : NULL, mask&4 ? &h : NULL);
    if(mask&2) { o[1] = g.dR; o[2] = g.dz; o[3] = g.dphi; }
    if(mask&4) { o[4] = h.dR2; o[5] = h.dz2; o[6] = h.dRdz; }
    o[7] = B.density(coord::PosCyl(x[0], x[1], x[2])); }
// I = {E, Lz, I3, flambda, fnu}
void d_fst(const double* p, const double* I, double tau, int mask, double* o) {
    AbsG G; AxisymFunctionStaeckel f(prol(p), I[0], I[1], I[2], G);
    f.evalDeriv(tau, mask&1 ? o : NULL, mask&2 ? o+1 : NULL, mask&4 ? o+2 : NULL); }
void d_ffu(const double* p, const double* I, double tau, int mask, double* o) {
    Abs P; AxisymFunctionFudge f(prol(p), I[0], I[1], I[2], I[3], I[4], P);
    f.evalDeriv(tau, mask&1 ? o : NULL, mask&2 ? o+1 : NULL, mask&4 ? o+2 : NULL); }
void d_frt(const double* p, const double* I, double tau, int mask, double* o) {
    AbsAux f(prol(p), I[0], I[1], I[2]); AxisymScaledForRootfinder r(f);
    r.evalDeriv(tau, mask&1 ? o : NULL, mask&2 ? o+1 : NULL); }
double d_kern(const double* p, const double* I, int n, int a, int c, double tau, double numax) {
    AbsAux f(prol(p), I[0], I[1], I[2]); AxisymIntegrand g(f, numax);
    g.n = n>0 ? AxisymIntegrand::nplus1 : AxisymIntegrand::nminus1; g.a = a==0 ? AxisymIntegrand::azero : a==1 ? AxisymIntegrand::aminus1 : AxisymIntegrand::aminus2;
    g.c = c==0 ? AxisymIntegrand::czero : AxisymIntegrand::cminus1;
    return g.value(tau); }
double d_kernlim(const double* p, const double* I, int a, int c, double tau, double numax) {
    AbsAux f(prol(p), I[0], I[1], I[2]); AxisymIntegrand g(f, numax);
    g.n = AxisymIntegrand::nminus1; g.a = a==0 ? AxisymIntegrand::azero : a==1 ? AxisymIntegrand::aminus1 : AxisymIntegrand::aminus2;
    g.c = c==0 ? AxisymIntegrand::czero : AxisymIntegrand::cminus1;
    return g.limitingIntegralValue(tau); }
void d_act(const double* p, const double* I, const double* l, double* o) {
    AbsAux f(prol(p), I[0], I[1], I[2]);
    Actions J = computeActions(f, lims(l)); o[0] = J.Jr; o[1] = J.Jz; o[2] = J.Jphi; }
void d_dact(const double* p, const double* I, const double* l, double* o) {
    AbsAux f(prol(p), I[0], I[1], I[2]);
    AxisymActionDerivatives d = computeActionDerivatives(f, lims(l));
    o[0] = d.dJrdE; o[1] = d.dJrdI3; o[2] = d.dJrdLz; o[3] = d.dJzdE; o[4] = d.dJzdI3; o[5] = d.dJzdLz; }
void d_dgen(const double* p, const double* I, const double* l, double* o) {
    AbsAux f(prol(p), I[0], I[1], I[2]);
    AxisymGenFuncDerivatives d = computeGenFuncDerivatives(f, lims(l)); o[0] = d.dSdE; o[1] = d.dSdI3; o[2] = d.dSdLz; }
void d_dint(const double* p, const double* I, const double* l, double* o) {
    AbsG G; AxisymFunctionStaeckel f(prol(p), I[0], I[1], I[2], G);
    AxisymIntDerivatives d = computeIntDerivatives(f, lims(l));
    o[0] = d.Omegar; o[1] = d.Omegaz; o[2] = d.Omegaphi; o[3] = d.dI3dJr; o[4] = d.dI3dJz; o[5] = d.dI3dJphi; o[6] = d.dLzdJr; o[7] = d.dLzdJz; o[8] = d.dLzdJphi; }
void d_ang(const double* i, const double* s, int add, double* o) {
    AxisymIntDerivatives d; d.Omegar = i[0]; d.Omegaz = i[1]; d.Omegaphi = i[2]; d.dI3dJr = i[3]; d.dI3dJz = i[4]; d.dI3dJphi = i[5]; d.dLzdJr = i[6]; d.dLzdJz = i[7]; d.dLzdJphi = i[8];
    AxisymGenFuncDerivatives g; g.dSdE = s[0]; g.dSdI3 = s[1]; g.dSdLz = s[2];
    Angles a = computeAngles(d, g, add); o[0] = a.thetar; o[1] = a.thetaz; o[2] = a.thetaphi; }
void d_eval(const double* p, const double* I, const double* x, int mask, double* o) {
    AbsAux f(prol(p), I[0], I[1], I[2]);
    Actions J; Angles A; Frequencies F;
    evalAxisym(f, coord::PosVelCyl(x[0], x[1], x[2], x[3], x[4], x[5]), mask&1 ? &J : NULL, mask&2 ? &A : NULL, mask&4 ? &F : NULL);
    if(mask&1) { o[0] = J.Jr; o[1] = J.Jz; o[2] = J.Jphi; }
    if(mask&2) { o[3] = A.thetar; o[4] = A.thetaz; o[5] = A.thetaphi; }
    if(mask&4) { o[6] = F.Omegar; o[7] = F.Omegaz; o[8] = F.Omegaphi; } }
void d_lim(const double* p, const double* I, double* o) {
    AbsAux f(prol(p), I[0], I[1], I[2]); AxisymIntLimits L = findIntegrationLimitsAxisym(f);
    o[0] = L.lambda_min; o[1] = L.lambda_max; o[2] = L.nu_min; o[3] = L.nu_max; }
double d_unsc(double a, double b, double s, double* o) { math::ScalingCub S(a, b); return math::unscale(S, s, o); }
double d_scal(double a, double b, double u) { math::ScalingCub S(a, b); return math::scale(S, u); }
double d_fncval(const math::IFunction* f, double x) { return (*f)(x); }
// conversion of integrals in an actual potential: actions, angles and frequencies (native runs)
void d_staeckel(const double* q, const double* x, double* o) {
    potential::OblatePerfectEllipsoid P(q[0], q[1], q[2]); Actions J; Angles A; Frequencies F;
    evalAxisymStaeckel(P, coord::PosVelCyl(x[0],x[1],x[2],x[3],x[4],x[5]), &J, &A, &F);
    o[0] = J.Jr; o[1] = J.Jz; o[2] = J.Jphi; o[3] = A.thetar; o[4] = A.thetaz; o[5] = A.thetaphi; o[6] = F.Omegar; o[7] = F.Omegaz; o[8] = F.Omegaphi; }
void d_fudge(const double* q, const double* x, double* o) {
    potential::OblatePerfectEllipsoid P(q[0], q[1], q[2]); Actions J; Angles A; Frequencies F;
    evalAxisymFudge(P, coord::PosVelCyl(x[0],x[1],x[2],x[3],x[4],x[5]), &J, &A, &F, sqrt(P.coordsys().Delta2));
    o[0] = J.Jr; o[1] = J.Jz; o[2] = J.Jphi; o[3] = A.thetar; o[4] = A.thetaz; o[5] = A.thetaphi; o[6] = F.Omegar; o[7] = F.Omegaz; o[8] = F.Omegaphi; }
}
