// drivers for the potential utilities (C12): the repository file is included for its internal classes
#include "potential_base.h"
namespace potential { // calls of these routines are visible to the contracts of their callers
__attribute__((noinline)) double R_circ(const BasePotential& potential, double E);
__attribute__((noinline)) double R_max(const BasePotential& potential, double E);
__attribute__((noinline)) double innerSlope(const math::IFunction& potential, double* Phi0, double* coef);
__attribute__((noinline)) void findPlanarOrbitExtent(const BasePotential& potential, double E, double L, double& R1, double& R2);
namespace { __attribute__((noinline)) double refineRoot(const math::IFunction& pot, double R, double E, double L); }
}
// the debugging output (only written at a high verbosity level) goes to a stream that discards it
#include <fstream>
#include <ostream>
#include <string>
namespace std { struct agv_nostream { agv_nostream() {} agv_nostream(const char*) {} void open(const char*) {} template<class T> agv_nostream& operator<<(const T&) { return *this; } agv_nostream& operator<<(ostream& (*)(ostream&)) { return *this; } }; }
#define ofstream agv_nostream
#include "potential_utils.cpp"
#undef ofstream
#include "potential_analytic.h"
#include "pot.h"
#include <new>
using namespace potential;
typedef std::vector<double> V;
extern "C" __attribute__((weak, noinline)) void agv_reg(const void*, int) {}   // names an object for the contracts of its methods
namespace {
template<class T> struct RawMem { alignas(T) char b[sizeof(T)]; T* p; RawMem() { for(size_t i=0; i<sizeof(T); i++) b[i]=0; p = (T*)b; } };
template<class T> inline T& mut(const T& x) { return const_cast<T&>(x); }
template<class S> inline void spl(const S& s, int id, double lo, double hi) { new(&mut(s)) S(); double x[2]={lo,hi}; mut(s).xval = V(x, x+2); agv_reg(&s, id); }
const Interpolator& interp() { static Interpolator i(MiyamotoNagai(1.1, 0.6, 0.7)); return i; }
struct PlumFnc : public math::IFunction { virtual void evalDeriv(double r, double* v, double* d, double* d2) const {
    double s = 1/std::sqrt(1+r*r); if(v) *v = -s; if(d) *d = r*s*s*s; if(d2) *d2 = s*s*s*(1-3*r*r*s*s); } virtual unsigned int numDerivs() const { return 2; } };
const PhaseVolume& phv() { static PhaseVolume p((PlumFnc())); return p; }
// P = 1/Phi(0), slope, mass and coefficient of the outer asymptotic law, ends of the grids
// virtual methods of an object that was not constructed
struct FakeI : public math::IFunction3Deriv { using math::IFunction3Deriv::evalDeriv; virtual void evalDeriv(const double x, double* v, double* d, double* d2, double* d3) const { ((const Interpolator*)this)->Interpolator::evalDeriv(x, v, d, d2, d3); } };
inline void fill(Interpolator& m, const double* P) {
    new(&m) FakeI();
    mut(m.invPhi0)=P[0]; m.slopeOut=P[1]; m.massOut=P[2]; m.coefOut=P[3];
    spl(m.LofE, 0, P[4], P[5]); spl(m.RofL, 1, P[4], P[5]); spl(m.PhiofR, 2, P[4], P[5]); spl(m.RofPhi, 3, P[4], P[5]); spl(m.freqNu, 4, P[4], P[5]); }
// an arbitrary matrix in place of the rotation matrix (the formulas do not need its orthogonality)
inline Orientation orient(const double* M) { Orientation o; for(int i=0; i<9; i++) mut(o.mat[i]) = M[i]; return o; }
// potential tending to zero at infinity
struct AbsPotInf : public AbsPotCyl { AbsPotInf() : AbsPotCyl(1, coord::ST_ZROTATION) {}
    virtual void evalCyl(const coord::PosCyl& p, double* v, coord::GradCyl* g, coord::HessCyl* h, double t) const { if(p.R==INFINITY) { if(v) *v=0; } else AbsPotCyl::evalCyl(p, v, g, h, t); } };
// nodes of the grid returned in place of math::createInterpolationGrid
double gridx[8]; int gridn;
// the data passed to the constructors of splines
inline void put(const V& x, int n, double* o) { for(int i=0; i<n; i++) o[i] = x.at(i); }
template<class S> inline void putspl(const S& s, int n, double* o) { put(s.xval, n, o); put(s.fval, n, o+n); put(s.fder, s.fder.size(), o+2*n); o[3*n] = s.xval.size(); }
struct SphFnc : public AbsFnc { SphFnc(int i) : AbsFnc(i) {} };
}
extern "C" {
void d_ip(int nat, int what, const double* P, int mask, double x, double* o) {
    RawMem<Interpolator> m;
    if(!nat) fill(*m.p, P);
    const Interpolator& I = nat ? interp() : *m.p;
    double* a = mask&1 ? o : NULL; double* b = mask&2 ? o+1 : NULL; double* c = mask&4 ? o+2 : NULL; double* d = mask&8 ? o+3 : NULL;
    switch(what) {
        case 0: I.Interpolator::evalDeriv(x, a, b, c, d); break;
        case 1: o[0] = I.R_max(x, b); break;
        case 2: o[0] = I.L_circ(x, b); break;
        case 3: o[0] = I.R_circ(x, b); break;
        case 4: o[0] = I.R_from_Lz(x, b); break;
        case 5: I.epicycleFreqs(x, o[0], o[1], o[2], mask&2 ? o+3 : NULL); break;
        case 6: o[0] = I.innerSlope(b, c); break;
    } }
void d_pv(int nat, int what, double invPhi0, double x, double y, int mask, double* o) {
    RawMem<PhaseVolume> m;
    if(!nat) { mut(m.p->invPhi0) = invPhi0; spl(m.p->HofE, 5, 0, 1); spl(m.p->EofH, 6, 0, 1); }
    const PhaseVolume& p = nat ? phv() : *m.p;
    double* a = mask&1 ? o : NULL; double* b = mask&2 ? o+1 : NULL; double* c = mask&4 ? o+2 : NULL;
    switch(what) {
        case 0: p.PhaseVolume::evalDeriv(x, a, b); break;
        case 1: o[0] = p.E(x, b, c); break;
        case 2: o[0] = p.deltaE(x, y, b); break;
    } }
void d_scaleE(double E, double invPhi0, double* o) { scaleE(E, invPhi0, o[0], o[1]); }
void d_unscaleE(double s, double invPhi0, double* o) { unscaleE(s, invPhi0, o[0], o[1], o[2]); }
void d_unscaleDE(double s1, double s2, double invPhi0, double* o) { unscaleDeltaE(s1, s2, invPhi0, o[0], o[1], o[2], o[3]); }
// functions passed to the root finder
void d_rf(int what, double E, double L, double x, int mask, double* o) {
    AbsPotCyl p(1, coord::ST_ZROTATION);
    double* a = mask&1 ? o : NULL; double* b = mask&2 ? o+1 : NULL;
    switch(what) {
        case 0: RmaxRootFinder(p, E).evalDeriv(x, a, b); break;
        case 1: RcircRootFinder(p, E).evalDeriv(x, a, b); break;
        case 2: RfromLRootFinder(p, L).evalDeriv(x, a, b); break;
        case 3: RPeriApoRootFinder(p, E, L).evalDeriv(x, a, b); break;
    } }
void d_rfpl(double s, double v2, double x, int mask, double* o) { RPeriApoRootFinderPowerLaw(s, v2).evalDeriv(x, mask&1 ? o : NULL, mask&2 ? o+1 : NULL); }
double d_refine(double R, double E, double L) { AbsFnc f(1); return refineRoot(f, R, E, L); }
double d_inner(double* P0, double* coef) { AbsFnc f(1); return innerSlope(f, P0, coef); }
double d_scalephi(int nat, double lr, double* o) { AbsFnc f(1); double d, d2; FunctionToPotentialWrapper w(f); ScalePhi(w).evalDeriv(lr, o, &d, &d2); return d2; }
// the routines that call the root finder; natively for the given potential
double d_root(int nat, int what, double x, double* o) {
    static const MiyamotoNagai mn(1.1, 0.6, 0.7);
    AbsPotCyl ap(1, coord::ST_ZROTATION);
    const BasePotential& p = nat ? (const BasePotential&)mn : (const BasePotential&)ap;
    switch(what) {
        case 0: return R_max(p, x);
        case 1: return R_circ(p, x);
        case 2: return R_from_Lz(p, x);
        case 3: return L_circ(p, x);
        case 4: return T_circ(p, x);
        case 5: return v_circ(p, x);
        case 6: epicycleFreqs(p, x, o[0], o[1], o[2]); return 0;
    } return 0; }
void d_mn(double R, double* o) { coord::GradCyl g; coord::HessCyl h; MiyamotoNagai(1.1, 0.6, 0.7).eval(coord::PosCyl(R,0,0), o, &g, &h); o[1]=g.dR; o[2]=h.dR2; o[3]=h.dz2; }
void d_extent(int nat, double E, double L, double* o) {
    static const MiyamotoNagai mn(1.1, 0.6, 0.7);
    AbsPotCyl ap(1, coord::ST_ZROTATION);
    findPlanarOrbitExtent(nat ? (const BasePotential&)mn : (const BasePotential&)ap, E, L, o[0], o[1]); }
double d_inner4(double* P0, double* coef) { AbsPotCyl ap(1, coord::ST_ZROTATION); Axisymmetrized<BasePotential> f(ap); return innerSlope(f, P0, coef); }
double d_fncval(const math::IFunction* f, double x) { return f->value(x); }    // used by the contract of the root finder
void d_ndval(const math::IFunctionNdim* f, const double* x, double* r) { f->evalmany(1, x, r); }
// line-of-sight integrands
void d_projdens(const double* X, const double* M, double t, double s, int many, double* o) {
    AbsDens d(1);
    Orientation orn(orient(M));
    ProjectedDensityIntegrand f(d, PosProj(X[0], X[1]), orn, t);
    double Z = math::unscale(math::ScalingDoubleInf(std::sqrt(X[0]*X[0]+X[1]*X[1])), s, &o[2]); o[1] = Z;
    if(many==0) o[0] = f.value(s); else if(many==1) f.eval(&s, o); else { double v[2] = {s, 0.25}, r[2]; f.evalmany(2, v, r); o[0] = r[0]; } }
void d_projeval(const double* X, const double* M, double t, double s, int mask, double* o) {
    AbsPotCar p(1);
    Orientation orn(orient(M));
    ProjectedEvalIntegrand f(p, PosProj(X[0], X[1]), orn, mask&1, mask&2, mask&4, t);
    o[6] = math::unscale(math::ScalingDoubleInf(std::sqrt(X[0]*X[0]+X[1]*X[1])), s, &o[7]); o[8] = f.numValues(); o[9] = f.numVars();
    f.eval(&s, o); }
double d_projdensint(int nat, const double* X, const double* M, double t) { AbsDens d(1); Orientation orn(orient(M)); return projectedDensity(d, PosProj(X[0], X[1]), orn, t); }
void d_projevalint(int mask, const double* X, const double* M, double t, double* v, double* o) {
    AbsPotCar p(1); Orientation orn(orient(M)); GradCar g; HessCar h;
    projectedEval(p, PosProj(X[0], X[1]), orn, mask&1 ? v : NULL, mask&2 ? &g : NULL, mask&4 ? &h : NULL, t);
    if(mask&2) IO<Car>::put(o, g);
    if(mask&4) IO<Car>::put(o+3, h); }
void d_inertia(const double* axes, const double* M, const double* s, int sym, double* o, double* pos) {
    AbsDens d(1, sym ? coord::ST_TRIAXIAL : coord::ST_NONE); double a[3] = {axes[0], axes[1], axes[2]};
    Orientation orn(orient(M));
    PrincipalAxesIntegrand f(d, a, orn);
    f.eval(s, o); o[6] = f.numValues(); o[7] = f.numVars();
    PosCar p = toPosCar(unscaleCoords(s, &pos[3])); pos[0]=p.x; pos[1]=p.y; pos[2]=p.z; }
void d_potfinder(int what, double E, const double* X, const double* M, double s, double* o) {
    AbsPotCar p(1); Orientation orn(orient(M));
    if(what==0) { o[0] = PotentialFinder(p, E, X[0], X[1], orn).value(s); o[1] = math::unscale(math::ScalingDoubleInf(std::sqrt(X[0]*X[0]+X[1]*X[1])), s); }
    else findRoots(p, E, X[0], X[1], orn, o[0], o[1], o[2]); }
double d_unscale2(const double* X, double s) { return math::unscale(math::ScalingDoubleInf(std::sqrt(X[0]*X[0]+X[1]*X[1])), s); }
// replacements for routines called by constructors
V d_grid() { return V(gridx, gridx+gridn); }
void d_quintic(math::QuinticSpline* s, const V& x, const V& f, const V& d) { new(s) math::QuinticSpline(); s->xval = x; s->fval = f; s->fder = d; }
void d_cubic(math::CubicSpline* s, const V& x, const V& f, bool reg, double d1, double d2) { new(s) math::CubicSpline(); s->xval = x; s->fval = f; s->fder = V(2); s->fder[0] = d1; s->fder[1] = d2; if(reg) s->fder.clear(); }
static double* out2d; static int n2d;
void d_quintic2d(math::QuinticSpline2d* s, const V& x, const V& y, const math::Matrix<double>& f, const math::Matrix<double>& dx, const math::Matrix<double>& dy) {
    new(s) math::QuinticSpline2d();
    int N = y.size(), c[4] = {0, 1, N/2, N-1};
    double* o = out2d; out2d += 1 + 2 + 4 + 2*4*3;
    *o++ = N; put(x, 2, o); o += 2;
    for(int j=0; j<4; j++) *o++ = y[c[j]];
    for(int i=0; i<2; i++) for(int j=0; j<4; j++) { *o++ = f(i,c[j]); *o++ = dx(i,c[j]); *o++ = dy(i,c[j]); } }
void d_ipctor(const double* g, int n, double* o) {
    utils::verbosityLevel = (utils::VerbosityLevel)-1;
    gridn = n; for(int i=0; i<n; i++) gridx[i] = g[i];
    AbsPotInf p; Interpolator I(p);
    int m = I.RofL.xval.size();
    o[0] = I.invPhi0; o[1] = I.slopeOut; o[2] = I.massOut; o[3] = I.coefOut; o[4] = m; o += 5;
    putspl(I.LofE, m, o); o += 3*m+1; putspl(I.RofL, m, o); o += 3*m+1; putspl(I.PhiofR, m, o); o += 3*m+1; putspl(I.RofPhi, m, o); o += 3*m+1;
    put(I.freqNu.xval, m, o); put(I.freqNu.fval, m, o+m); put(I.freqNu.fder, 2, o+2*m); }
void d_ip2dctor(const double* g, double* o) {
    utils::verbosityLevel = (utils::VerbosityLevel)-1;
    gridn = 2; for(int i=0; i<2; i++) gridx[i] = g[i];
    out2d = o; AbsPotInf p; RawMem<Interpolator2d> m; new(m.p) Interpolator2d(p); }
void d_ip2d(double invPhi0, double xmin, double xmax, double E, double L, double* o) {
    RawMem<Interpolator2d> m; double P[6] = {invPhi0, -1, 1, 0, xmin, xmax}; fill(*m.p, P);
    mut(m.p->invPhi0) = invPhi0; mut(m.p->Interpolator::invPhi0) = invPhi0; double x[2] = {xmin, xmax};
    spl(m.p->RofL, 1, xmin, xmax); spl(m.p->LofE, 0, xmin, xmax);
    new(&m.p->intR1) math::QuinticSpline2d(); m.p->intR1.xval = V(x, x+2); agv_reg(&m.p->intR1, 7);
    new(&m.p->intR2) math::QuinticSpline2d(); m.p->intR2.xval = V(x, x+2); agv_reg(&m.p->intR2, 8);
    m.p->findPlanarOrbitExtent(E, L, o[0], o[1]); }
void d_pvctor(const double* g, int n, double* o) {
    utils::verbosityLevel = (utils::VerbosityLevel)-1;
    gridn = n; for(int i=0; i<n; i++) gridx[i] = g[i];
    AbsFnc f(1); PhaseVolume p(f);
    int m = p.HofE.xval.size();
    o[0] = p.invPhi0; o[1] = m; putspl(p.HofE, m, o+2); putspl(p.EofH, m, o+3+3*m); }
}
