// drivers for distribution functions (C11)
#include "df_spherical.cpp"
#include "df_halo.cpp"
#include "df_base.cpp"
#include "df_disk.h"
#include "df_factory.h"
#include "potential_analytic.h"
#include "drv.h"
#include <new>
using namespace df;
typedef std::vector<double> V;
namespace {
template<class T> struct RawMem { alignas(T) char b[sizeof(T)]; T* p; RawMem() { for(size_t i=0; i<sizeof(T); i++) b[i]=0; p = (T*)b; } };
template<class T> inline T& mut(const T& x) { return const_cast<T&>(x); }
inline actions::Actions act(const double* J) { return actions::Actions(J[0], J[1], J[2]); }
inline void put(double* o, const DerivByActions& d) { o[0]=d.dbyJr; o[1]=d.dbyJz; o[2]=d.dbyJphi; }
// the derivatives, if requested, are written to der
template<class D> inline void ev(const D& d, const double* J, int der, double* v, double* o) {
    DerivByActions g;
    d.D::evalDeriv(act(J), v, der ? &g : NULL);
    if(der) put(o, g); }
// parameters of the double-power-law DF in the order of the structure (norm...Jcore)
inline DoublePowerLawParam dplpar(const double* P) { DoublePowerLawParam p;
    p.norm=P[0]; p.J0=P[1]; p.Jcutoff=P[2]; p.slopeIn=P[3]; p.slopeOut=P[4]; p.steepness=P[5]; p.cutoffStrength=P[6];
    p.coefJrIn=P[7]; p.coefJzIn=P[8]; p.coefJrOut=P[9]; p.coefJzOut=P[10]; p.rotFrac=P[11]; p.Jphi0=P[12]; p.Jcore=P[13]; return p; }
inline ExponentialParam exppar(const double* P) { ExponentialParam p;
    p.norm=P[0]; p.Jr0=P[1]; p.Jz0=P[2]; p.Jphi0=P[3]; p.addJden=P[4]; p.addJvel=P[5]; p.coefJr=P[6]; p.coefJz=P[7]; p.qJr=P[8]; p.qJz=P[9]; p.qJphi=P[10]; return p; }
inline QuasiIsothermalParam qipar(const double* P) { QuasiIsothermalParam p;
    p.Sigma0=P[0]; p.Rdisk=P[1]; p.Hdisk=P[2]; p.sigmar0=P[3]; p.sigmaz0=P[4]; p.sigmamin=P[5]; p.Rsigmar=P[6]; p.Rsigmaz=P[7];
    p.coefJr=P[8]; p.coefJz=P[9]; p.qJr=P[10]; p.qJz=P[11]; p.qJphi=P[12]; p.Jmin=P[13]; return p; }
// native runs need real auxiliary objects; the contracts are stated over their outputs
const potential::Interpolator& interp() { static potential::Interpolator i(potential::MiyamotoNagai(1.1, 0.6, 0.7)); return i; }
struct PlumFnc : public math::IFunction { virtual void evalDeriv(double r, double* v, double* d, double* d2) const {
    double s = 1/sqrt(1+r*r); if(v) *v = -s; if(d) *d = r*s*s*s; if(d2) *d2 = s*s*s*(1-3*r*r*s*s); } virtual unsigned int numDerivs() const { return 2; } };
math::LogLogSpline lls() { double x[3] = {.1,1.,10.}, y[3] = {.3,1.2,2.4}; return math::LogLogSpline(V(x,x+3), V(y,y+3)); }
const math::LogLogSpline& fnc1() { static math::LogLogSpline l(lls()); return l; }
struct AbsDF : public BaseDistributionFunction { int id; AbsDF(int i) : id(i) {}
    double f(const actions::Actions& J, int a, int b, int c) const { int d[3]={a,b,c}; double x[3]={J.Jr,J.Jz,J.Jphi}; return agv_f(id, 3, d, x); }
    virtual void evalDeriv(const actions::Actions& J, double* v, DerivByActions* d) const { *v = f(J,0,0,0);
        if(d) { d->dbyJr = f(J,1,0,0); d->dbyJz = f(J,0,1,0); d->dbyJphi = f(J,0,0,1); } } };
// DF expressed through E, L, Lz
struct AbsQS : public QuasiSpherical { AbsQS(const math::IFunction& f) : QuasiSpherical(f) {} using QuasiSpherical::evalDeriv;
    double f(const ClassicalIntegrals& J, int a, int b, int c) const { int d[3]={a,b,c}; double x[3]={J.E,J.L,J.Lz}; return agv_f(1, 3, d, x); }
    virtual void evalDeriv(const ClassicalIntegrals& J, double* v, DerivByClassicalIntegrals* d) const { *v = f(J,0,0,0);
        if(d) { d->dbyE = f(J,1,0,0); d->dbyL = f(J,0,1,0); d->dbyLz = f(J,0,0,1); } } };
struct Deriv0 : public math::IFunctionNoDeriv { const double* c; Deriv0(const double* _c) : c(_c) {}
    virtual double value(double r) const { return c[0] + r*(c[1] + r*(c[2] + r*(c[3] + r*c[4]))); } };
}
extern "C" {
void d_dpl(const double* P, double beta, const double* J, int der, double* v, double* o) {
    RawMem<DoublePowerLaw> m; mut(m.p->par) = dplpar(P); mut(m.p->beta) = beta; ev(*m.p, J, der, v, o); }
void d_dplctor(const double* P) { DoublePowerLaw d(dplpar(P)); }
double d_dplbeta(const double* P) { DoublePowerLaw d(dplpar(P)); return d.beta; }
double d_deltaf(const double* P, double t, double beta) { DoublePowerLawParam p = dplpar(P); return BetaFinder(p).deltaf(t, beta); }
double d_betaval(const double* P, double beta) { DoublePowerLawParam p = dplpar(P); return BetaFinder(p).value(beta); }
void d_exp(const double* P, const double* J, int der, double* v, double* o) { Exponential d(exppar(P)); ev(d, J, der, v, o); }
void d_expctor(const double* P) { Exponential d(exppar(P)); }
double d_qexp(double x, double q) { return math::qexp(x, q); }
void d_qi(int nat, const double* P, const double* J, int der, double* v, double* o) {
    RawMem<QuasiIsothermal> m; mut(m.p->par) = qipar(P);
    if(nat) new(&mut(m.p->freq)) potential::Interpolator(interp());
    ev(*m.p, J, der, v, o); }
void d_qictor(const double* P) { RawMem<potential::Interpolator> f; QuasiIsothermal d(qipar(P), *f.p); }
// radius and frequencies used by the quasi-isothermal DF (native runs only)
void d_freqs(double J, double* o) { o[0] = interp().R_from_Lz(J, &o[1]); interp().epicycleFreqs(o[0], o[2], o[3], o[4], &o[5]); }
void d_comp(int ncomp, int npoints, int sep, const double* J, double* v, double* d) {
    std::vector<PtrDistributionFunction> c;
    for(int i=0; i<ncomp; i++) c.push_back(PtrDistributionFunction(new AbsDF(i+1)));
    CompositeDF df(c);
    actions::Actions a[3]; DerivByActions g[9];
    for(int p=0; p<npoints; p++) a[p] = act(J+3*p);
    df.evalmany(npoints, a, sep & 1, v, sep & 2 ? g : NULL);
    if(sep & 2) for(int i=0; i<(sep & 1 ? ncomp*npoints : npoints); i++) put(d+3*i, g[i]); }
void d_comp1(int ncomp, const double* J, int der, double* v, double* d) {
    std::vector<PtrDistributionFunction> c;
    for(int i=0; i<ncomp; i++) c.push_back(PtrDistributionFunction(new AbsDF(i+1)));
    CompositeDF df(c); ev(df, J, der, v, d); v[1] = df.numValues(); v[2] = df.value(act(J)); }
void d_many(int npoints, int der, const double* J, double* v, double* d) {
    AbsDF df(1); actions::Actions a[3]; DerivByActions g[3];
    for(int p=0; p<npoints; p++) a[p] = act(J+3*p);
    df.evalmany(npoints, a, false, v, der ? g : NULL);
    if(der) for(int p=0; p<npoints; p++) put(d+3*p, g[p]); }
void d_toact(int kind, const double* u, double sm, double sp, double* o) { double jac; actions::Actions a;
    if(kind) a = ActionSpaceScalingRect(sm, sp).toActions(u, &jac); else a = ActionSpaceScalingTriangLog().toActions(u, &jac);
    o[0]=a.Jr; o[1]=a.Jz; o[2]=a.Jphi; o[3]=jac; }
void d_toscaled(int kind, const double* J, double sm, double sp, double* o) {
    if(kind) ActionSpaceScalingRect(sm, sp).toScaled(act(J), o); else ActionSpaceScalingTriangLog().toScaled(act(J), o); }
// integrand of the total mass (0) or entropy (1)
void d_integrand(int log, const double* u, double* o) { AbsDF df(1); if(log) DFIntegrandNdim<true>(df).eval(u, o); else DFIntegrandNdim<false>(df).eval(u, o); }
// In symbolic runs the constructor of the action finder is replaced by a stub (the memory stays zero); its methods are abstract functions
void d_qs(int nat, const double* J, int der, double* v, double* o) {
    DerivByActions g; RawMem<AbsQS> m; const QuasiSpherical* q;
    if(nat) { static AbsQS s((PlumFnc())); q = &s; } else q = new(m.p) AbsQS(PlumFnc());
    q->QuasiSpherical::evalDeriv(act(J), v, der ? &g : NULL);
    if(der) put(o, g); }
const QuasiSphericalIsotropic& qsi();
// energy and frequencies of the action finder used in native runs
void d_finder(int which, double Jr, double L, double* o) {
    static AbsQS s((PlumFnc())); const actions::ActionFinderSpherical& f = which ? qsi().af : s.af;
    o[0] = f.E(actions::Actions(Jr, L, 0)); f.Jr(o[0], L, &o[1], &o[2]); }
const QuasiSphericalIsotropic& qsi() { static QuasiSphericalIsotropic s(lls(), potential::Isochrone(1.2, 0.8)); return s; }
void d_qsi(int nat, const double* J, int der, double* v, double* o) {
    // in symbolic runs, virtual calls of the two members reach their methods through these tables
    struct PV : public math::IFunction { virtual void evalDeriv(double x, double* v, double* d, double* d2) const { ((const potential::PhaseVolume*)this)->potential::PhaseVolume::evalDeriv(x, v, d, d2); } virtual unsigned int numDerivs() const { return 1; } };
    struct LS : public math::IFunction { virtual void evalDeriv(double x, double* v, double* d, double* d2) const { ((const math::LogLogSpline*)this)->math::LogLogSpline::evalDeriv(x, v, d, d2); } virtual unsigned int numDerivs() const { return 2; } };
    RawMem<QuasiSphericalIsotropic> m; if(!nat) { new((char*)&m.p->pv) PV; new((char*)&m.p->df) LS; } ev(nat ? qsi() : *m.p, J, der, v, o); }
void d_pv(double E, double* o) { qsi().pv.evalDeriv(E, &o[0], &o[1]); }
void d_fnc1(double x, double* o) { fnc1().evalDeriv(x, &o[0], &o[1]); }
void d_com(int nat, const double* P, const double* x, int der, double* v, double* o) {
    RawMem<QuasiSphericalCOM> m; mut(m.p->invPhi0) = P[0]; mut(m.p->beta0) = P[1]; mut(m.p->r_a) = P[2];
    if(nat) new(&mut(m.p->df)) math::LogLogSpline(fnc1());
    ClassicalIntegrals c; c.E = x[0]; c.L = x[1]; c.Lz = x[2]; DerivByClassicalIntegrals d;
    m.p->QuasiSphericalCOM::evalDeriv(c, v, der ? &d : NULL);
    if(der) { o[0] = d.dbyE; o[1] = d.dbyL; o[2] = d.dbyLz; } }
// augmented density: 0: density and potential are abstract functions; 1: series below rmin
void d_aug(int mode, double beta0, double ra, double r, const double* c, double* o) {
    AbsFnc den(1), pot(2);
    AugmentedDensity a(den, pot, beta0, ra);
    if(mode==1) { a.rmin = c[0]; a.coefs.assign(c+1, c+5); mut(a.Phi0) = c[5]; }
    a.eval(r, o[0], o[1], o[2], o[3], o[4], o[5]); }
void d_auglog(double beta0, double ra, double logr, int mask, double* o) {
    AbsFnc den(1), pot(2); AugmentedDensity a(den, pot, beta0, ra);
    a.evalDeriv(logr, mask&1 ? o : NULL, mask&2 ? o+1 : NULL, mask&4 ? o+2 : NULL); }
// density without derivatives: finite differences (the potential is singular, so that no series is sought)
void d_augfd(double beta0, double ra, double r, const double* c, double* o) {
    struct Pot : public AbsFnc { Pot() : AbsFnc(2) {} virtual void evalDeriv(const double x, double* v, double* d, double* d2) const {
        if(x==0) *v = -INFINITY; else AbsFnc::evalDeriv(x, v, d, d2); } };
    Pot pot; Deriv0 poly(c); AugmentedDensity a(poly, pot, beta0, ra);
    a.eval(r, o[0], o[1], o[2], o[3], o[4], o[5]); }
// DF constructed for density r^(-2 beta) (1+r^2/ra^2)^(beta-1) (-Phi)^n in the Plummer (0) or Isochrone (1) potential
void d_edd(int which, double beta0, double ra, double n, const double* x, double* v) {
    struct Den : public math::IFunctionNoDeriv { const math::IFunction& p; double b, a, n; Den(const math::IFunction& _p, double _b, double _a, double _n) : p(_p), b(_b), a(_a), n(_n) {}
        virtual double value(double r) const { return pow(r, -2*b) * pow(1+r*r/a/a, b-1) * pow(-p(r), n); } };
    struct Iso : public math::IFunction { virtual void evalDeriv(double r, double* v, double* d, double* d2) const {
        double q = sqrt(1+r*r), s = 1+q; if(v) *v = -1/s; if(d) *d = r/q/s/s; if(d2) *d2 = 1/(s*s*q*q*q) - 2*r*r/(q*q*s*s*s); } virtual unsigned int numDerivs() const { return 2; } };
    PlumFnc pl; Iso is; const math::IFunction& pot = which ? (const math::IFunction&)is : pl;
    QuasiSphericalCOM df(Den(pot, beta0, ra, n), pot, beta0, ra);
    ClassicalIntegrals c; c.E = x[0]; c.L = x[1]; c.Lz = 0; df.evalDeriv(c, v); }
}
