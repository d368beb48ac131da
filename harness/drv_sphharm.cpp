// drivers for spherical harmonics and the multipole expansion (C13): the repository file is included for its internal classes
#include "potential_base.h"
#include "math_sphharm.h"
#include <vector>
namespace potential { namespace { // calls of this routine are visible to the contracts of its callers
__attribute__((noinline)) void computeExtrapolationCoefs(double Phi1, double Phi2, double dPhi1, double r1, double r2, int v, double s0, double& s, double& U, double& W);
__attribute__((noinline)) void sphHarmTransformInverseDeriv(const math::SphHarmIndices& ind, const coord::PosCyl& pos,
    const double C_lm[], const double dC_lm[], const double d2C_lm[], double *val, coord::GradSph *grad, coord::HessSph *hess);
template<class T> __attribute__((noinline)) void computeSphHarmCoefs(const T& src, const math::SphHarmIndices& ind, const std::vector<double>& radii, std::vector< std::vector<double> > coefs[]);
} }
#include "potential_multipole.cpp"
#include "pot.h"
#include <new>
using namespace potential;
typedef std::vector<double> V;
typedef std::vector<V> VV;
extern "C" __attribute__((weak, noinline)) void agv_reg(const void*, int) {}   // names an object for the contracts of its methods
namespace {
template<class T> struct RawMem { alignas(T) char b[sizeof(T)]; T* p; RawMem() { for(size_t i=0; i<sizeof(T); i++) b[i]=0; p = (T*)b; } };
template<class T> inline T& mut(const T& x) { return const_cast<T&>(x); }
inline void putind(const math::SphHarmIndices& I, double* o) {
    o[0]=I.lmax; o[1]=I.mmax; o[2]=I.step; o[3]=I.symmetry(); o[4]=I.mmin(); o[5]=I.size();
    for(int m=-5; m<=5; m++) o[11+m] = I.lmin(m);
    for(int l=0; l<5; l++) for(int m=-l; m<=l; m++) o[17+l*(l+1)+m] = I.index(l,m)*1000 + math::SphHarmIndices::index_l(l*(l+1)+m)*50 + math::SphHarmIndices::index_m(l*(l+1)+m); }
inline SymmetryType S(int s) { return (SymmetryType)s; }
template<class P> void evcyl(const P& p, const double* x, int mask, double* o) {
    GradCyl G; HessCyl H;
    G.dR = G.dz = G.dphi = H.dR2 = H.dz2 = H.dphi2 = H.dRdz = H.dzdphi = H.dRdphi = 0;
    p.evalCyl(PosCyl(x[0],x[1],x[2]), mask&1 ? o : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, 0);
    if(mask&2) IO<Cyl>::put(o+1, G);
    if(mask&4) IO<Cyl>::put(o+4, H);
}
struct Coefs { int n; const double* c; };
// density given by a polynomial of second degree
struct PolyDens : public BaseDensity {
    const double* c; int sym;
    PolyDens(const double* _c, int s) : c(_c), sym(s) {}
    virtual SymmetryType symmetry() const { return S(sym); }
    virtual std::string name() const { return ""; }
    double f(double x, double y, double z) const { return c[0] + c[1]*x + c[2]*y + c[3]*z + c[4]*x*y + c[5]*y*z + c[6]*x*z + c[7]*(x*x-y*y) + c[8]*z*z; }
    virtual double densityCar(const PosCar& p, double) const { return f(p.x, p.y, p.z); }
    virtual double densityCyl(const PosCyl& p, double) const { double s, k; math::sincos(p.phi, s, k); return f(p.R*k, p.R*s, p.z); }
    virtual double densitySph(const PosSph& p, double) const { return densityCyl(toPosCyl(p), 0); }
};
// potential given by a polynomial of second degree
struct PolyPot : public BasePotentialCar {
    const double* c; int sym;
    PolyPot(const double* _c, int s) : c(_c), sym(s) {}
    virtual SymmetryType symmetry() const { return S(sym); }
    virtual std::string name() const { return ""; }
    virtual double totalMass() const { return 1; }
    virtual void evalCar(const PosCar& p, double* v, GradCar* g, HessCar*, double) const {
        double x = p.x, y = p.y, z = p.z;
        if(v) *v = c[0] + c[1]*x + c[2]*y + c[3]*z + c[4]*x*y + c[5]*y*z + c[6]*x*z + c[7]*(x*x-y*y) + c[8]*z*z;
        if(g) { g->dx = c[1] + c[4]*y + c[6]*z + 2*c[7]*x; g->dy = c[2] + c[4]*x + c[5]*z - 2*c[7]*y; g->dz = c[3] + c[5]*y + c[6]*x + 2*c[8]*z; } }
};
struct AbsPotD : public AbsPotCyl {
    AbsPotD(int i) : AbsPotCyl(i) {}
    virtual double densityCyl(const PosCyl& p, double t) const { double x[4] = {p.R, p.z, p.phi, t}; int d[4] = {0,0,0,0}; return agv_f(id+10, 4, d, x); }
};
VV mat(const double* c, int n, int nr) { VV r(n); for(int i=0; i<n; i++) r[i] = V(c+i*nr, c+(i+1)*nr); return r; }
struct FakeM : public Multipole { using Multipole::evalCyl; FakeM(); };
}
extern "C" {
void d_sha(int lmax, int m, int mask, double tau, double* o) {
    math::sphHarmArray(lmax, m, tau, o, mask&2 ? o+10 : NULL, mask&4 ? o+20 : NULL); }
static double lm_[100];
double* d_lm(const math::SphHarmIndices& I) {   // terms of the index set: count, (l,m)
    int n = 0; for(int m=I.mmin(); m<=I.mmax; m++) for(int l=I.lmin(m); l<=I.lmax; l+=I.step) { lm_[1+2*n] = l; lm_[2+2*n] = m; n++; } lm_[0] = n; return lm_; }
void d_trig(double phi, int m, int sine, double* o) { math::trigMultiAngle(phi, m, sine!=0, o); }
void d_ind(int lmax, int mmax, int sym, double* o) { putind(math::SphHarmIndices(lmax, mmax, S(sym)), o); }
void d_fromcoefs(const double* c, int n, double* o) { putind(math::getIndicesFromCoefs(V(c, c+n)), o); }
void d_fromcoefs2(const double* c, int n, int nr, double* o) {
    if(nr<0) { putind(potential::getIndicesFromCoefs(mat(c, n, -nr)), o); } else putind(potential::getIndicesFromCoefs(mat(c, n, nr), mat(c+n*nr, n, nr)), o); }
void d_azi(int mmax, int sym, double* o) { std::vector<int> r = math::getIndicesAzimuthal(mmax, S(sym)); o[0] = r.size(); for(size_t i=0; i<r.size(); i++) o[1+i] = r[i]; }
void d_four(int mmax, int sine, int stride, const double* v, double* o) {
    math::FourierTransformForward t(mmax, sine!=0); o[0] = t.size(); for(unsigned int i=0; i<t.size(); i++) o[1+i] = t.phi(i); o += 1+t.size(); t.transform(v, o, stride); }
// size, grid points, transform of the values
void d_fwd(int lmax, int mmax, int sym, int stride, const double* v, double* o) {
    math::SphHarmIndices I(lmax, mmax, S(sym)); math::SphHarmTransformForward t(I);
    o[0] = t.size(); for(unsigned int i=0; i<t.size(); i++) { o[1+2*i] = t.costheta(i); o[2+2*i] = t.phi(i); }
    t.transform(v, o+1+2*t.size(), stride); }
void d_inv(int lmax, int mmax, int sym, const double* c, double tau, double phi, double* o) {
    o[0] = math::sphHarmTransformInverse(math::SphHarmIndices(lmax, mmax, S(sym)), c, tau, phi); }
void d_invder(int idx, const double* c, const double* x, int mask, double* o) {
    math::SphHarmIndices I(idx&15, idx>>4&15, S(idx>>8)); int n = I.size();
    GradSph G; HessSph H;
    sphHarmTransformInverseDeriv(I, PosCyl(x[0],x[1],x[2]), c, c+n, c+2*n, mask&1 ? o : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL);
    if(mask&2) IO<Sph>::put(o+1, G);
    if(mask&4) IO<Sph>::put(o+4, H); }
void d_azim(int lmax, int mmax, int sym, double phi, const double* c, int mask, double* o) {
    math::SphHarmIndices I(lmax, mmax, S(sym));
    GradSph G; HessSph H;
    fourierTransformAzimuth(I, phi, c, mask&1 ? o : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL);
    if(mask&2) IO<Sph>::put(o+1, G);
    if(mask&4) IO<Sph>::put(o+4, H); }
// derivatives by ln r and angles -> by R, z
void d_cylder(const double* x, const double* f, int mask, double* o) {
    GradSph g; HessSph h; GradCyl G; HessCyl H;
    g.dr=f[1]; g.dtheta=f[2]; g.dphi=f[3]; h.dr2=f[4]; h.dtheta2=f[5]; h.dphi2=f[6]; h.drdtheta=f[7]; h.dthetadphi=f[8]; h.drdphi=f[9];
    transformDerivsSphToCyl(PosCyl(x[0],x[1],x[2]), g, h, mask&2 ? &G : NULL, mask&4 ? &H : NULL);
    if(mask&2) IO<Cyl>::put(o+1, G);
    if(mask&4) IO<Cyl>::put(o+4, H); }
void d_extrap(const double* p, int v, double* o) { computeExtrapolationCoefs(p[0], p[1], p[2], p[3], p[4], v, p[5], o[0], o[1], o[2]); }
// power-law multipole of n coefficients S, U, W
void d_pl(int inner, int n, const double* p, const double* x, int mask, double* o) {
    PowerLawMultipole M(p[0], inner!=0, V(p+1, p+1+n), V(p+1+n, p+1+2*n), V(p+1+2*n, p+1+3*n));
    if(mask&8) o[0] = M.PowerLawMultipole::densityCyl(PosCyl(x[0],x[1],x[2]), 0);
    else evcyl(M, x, mask, o); }
void d_asympt(int inner, int n, int nr, const double* p, double* o) {
    PtrPotential P = initAsympt(V(p, p+nr), mat(p+nr, n, nr), mat(p+nr+n*nr, n, nr), inner!=0);
    const PowerLawMultipole& M = static_cast<const PowerLawMultipole&>(*P);
    o[0] = M.r0sq; o[1] = M.inner; for(int i=0; i<n; i++) { o[2+i] = M.S[i]; o[2+n+i] = M.U[i]; o[2+2*n+i] = M.W[i]; } }
void d_quintic(math::QuinticSpline* s, const V& x, const V& f, const V& d) { new(s) math::QuinticSpline(); s->xval = x; s->fval = f; s->fder = d; }
static int reg_;
void d_cubic(math::CubicSpline* s, const V& x, const V& f, bool reg, double d1, double d2) { new(s) math::CubicSpline(); s->xval = x; s->fval = f; s->fder = V(2); s->fder[0] = d1; s->fder[1] = d2; if(reg) s->fder.clear(); agv_reg(s, reg_++); }
// radii, values, derivatives of n coefficients; log scaling, 1/Phi(0), and data of the spline for each coefficient
void d_m1ctor(int n, int nr, const double* p, double* o) {
    MultipoleInterp1d M(V(p, p+nr), mat(p+nr, n, nr), mat(p+nr+n*nr, n, nr));
    o[0] = M.logScaling; o[1] = M.invPhi0; o += 2;
    for(int c=0; c<n; c++) { const math::QuinticSpline& s = M.spl[c]; *o++ = s.xval.size(); if(!s.xval.size()) { o += 3*nr; continue; }
        for(int i=0; i<nr; i++) { o[i] = s.xval.at(i); o[nr+i] = s.fval.at(i); o[2*nr+i] = s.fder.at(i); } o += 3*nr; } }
// idx = lmax + 16 mmax + 256 sym + 65536 nat + 131072 (log scaling)
void d_m1(int idx, double iphi, const double* p, const double* x, int mask, double* o) {
    int nat = idx>>16&1, lmax = idx&15, mmax = idx>>4&15, sym = idx>>8&255, lsc = idx>>17;
    if(nat) {   // p: 3 radii and the data of the coefficients
        int n = (lmax+1)*(lmax+1); MultipoleInterp1d M(V(p, p+3), mat(p+3, n, 3), mat(p+3+n*3, n, 3)); evcyl(M, x, mask, o); return; }
    RawMem<MultipoleInterp1d> m;
    new(&mut(m.p->ind)) math::SphHarmIndices(lmax, mmax, S(sym));
    m.p->logScaling = lsc; m.p->invPhi0 = iphi;
    m.p->spl.resize(m.p->ind.size());
    for(unsigned int c=0; c<m.p->ind.size(); c++) agv_reg(&m.p->spl[c], c);
    GradCyl G; HessCyl H;
    m.p->MultipoleInterp1d::evalCyl(PosCyl(x[0],x[1],x[2]), mask&1 ? o : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, 0);
    if(mask&2) IO<Cyl>::put(o+1, G);
    if(mask&4) IO<Cyl>::put(o+4, H); }
// solution of the Poisson equation
void d_shc(const void*, const math::SphHarmIndices& ind, const V& r, VV* co) {
    co->assign(ind.size(), V(r.size())); int d[1] = {0};
    for(unsigned int c=0; c<ind.size(); c++) for(size_t i=0; i<r.size(); i++) co[0][c][i] = agv_f(c, 1, d, &r[i]); }
void d_gl(double* o) { for(unsigned int i=0; i<GLORDER_RAD; i++) { o[i] = math::GLPOINTS[GLORDER_RAD][i]; o[GLORDER_RAD+i] = math::GLWEIGHTS[GLORDER_RAD][i]; } }
void d_pois(int idx, int nr, const double* r, const double* c, double* o) {
    int lmax = idx&15, mmax = idx>>4&15, sym = idx>>8;
    VV co[2]; PolyDens d(c, sym);
    computePotentialCoefsFromSource(d, math::SphHarmIndices(lmax, mmax, S(sym)), V(r, r+nr), co);
    o[0] = co[0].size(); o[1] = co[1].size(); for(size_t i=0; i<co[0].size(); i++) for(int k=0; k<nr; k++) { *(o+2+2*(i*nr+k)) = co[0][i].at(k); *(o+3+2*(i*nr+k)) = co[1][i].at(k); } }
// potential with two-dimensional splines for azimuthal harmonics
void d_tau(int lmax, double* o) { V t = createGridInTau(lmax); o[0] = t.size(); for(size_t i=0; i<t.size(); i++) o[1+i] = t[i]; }
static double *out2d_; static int nc2d_; static const int* c2d_;
void d_quintic2d(math::QuinticSpline2d* s, const V& x, const V& y, const math::Matrix<double>& f, const math::Matrix<double>& dx, const math::Matrix<double>& dy, const math::Matrix<double>& dxy) {
    new(s) math::QuinticSpline2d();
    double* o = out2d_; int nr = x.size(); out2d_ += 1 + nr + nc2d_ + 4*nr*nc2d_;
    *o++ = y.size(); for(int i=0; i<nr; i++) *o++ = x[i];
    for(int j=0; j<nc2d_; j++) *o++ = y[c2d_[j]];
    for(int i=0; i<nr; i++) for(int j=0; j<nc2d_; j++) { *o++ = f(i,c2d_[j]); *o++ = dx(i,c2d_[j]); *o++ = dy(i,c2d_[j]); *o++ = dxy(i,c2d_[j]); } }
static const int nodes2d_[] = {0, 1, 3, 4, 6, 9};   // nodes of the second coordinate reported by the previous routine
void d_m2ctor(int n, int nr, int nc, const double* p, double* o) {
    out2d_ = o+2; nc2d_ = nc; c2d_ = nodes2d_;
    MultipoleInterp2d M(V(p, p+nr), mat(p+nr, n, nr), mat(p+nr+n*nr, n, nr));
    o[0] = M.logScaling; o[1] = M.invPhi0; }
void d_m2(int idx, double iphi, const double* p, const double* x, int mask, double* o) {
    int nat = idx>>16&1, lmax = idx&15, mmax = idx>>4&15, sym = idx>>8&255, lsc = idx>>17;
    if(nat) { int n = (lmax+1)*(lmax+1); MultipoleInterp2d M(V(p, p+3), mat(p+3, n, 3), mat(p+3+n*3, n, 3)); evcyl(M, x, mask, o); return; }
    RawMem<MultipoleInterp2d> m;
    new(&mut(m.p->ind)) math::SphHarmIndices(lmax, mmax, S(sym));
    m.p->logScaling = lsc; m.p->invPhi0 = iphi;
    m.p->spl.resize(2*mmax+1);
    for(int c=0; c<2*mmax+1; c++) agv_reg(&m.p->spl[c], c);
    GradCyl G; HessCyl H;
    m.p->MultipoleInterp2d::evalCyl(PosCyl(x[0],x[1],x[2]), mask&1 ? o : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, 0);
    if(mask&2) IO<Cyl>::put(o+1, G);
    if(mask&4) IO<Cyl>::put(o+4, H); }
// spherical-harmonic density: construction (log scaling, slopes, data of splines) and evaluation
void d_dctor(int n, int nr, const double* p, double* o) {
    reg_ = 0;
    DensitySphericalHarmonic M(V(p, p+nr), mat(p+nr, n, nr));
    o[0] = M.logScaling; o[1] = M.innerSlope; o[2] = M.outerSlope; o += 3;
    for(int c=0; c<n; c++) { if(!M.spl[c]) { *o = 0; o += 2*nr+3; continue; } const math::CubicSpline& s = static_cast<const math::CubicSpline&>(*M.spl[c]); *o++ = s.xval.size();
        for(int i=0; i<nr; i++) { o[i] = s.xval.at(i); o[nr+i] = s.fval.at(i); } o[2*nr] = s.fder.at(0); o[2*nr+1] = s.fder.at(1); o += 2*nr+2; } }
void d_dens(int idx, const double* p, const double* x, double* o) {
    int nat = idx>>16&1, lmax = idx&15, mmax = idx>>4&15, sym = idx>>8&255, lsc = idx>>17;
    if(nat) { int n = (lmax+1)*(lmax+1); DensitySphericalHarmonic M(V(p, p+3), mat(p+3, n, 3)); o[0] = M.densityCyl(PosCyl(x[0],x[1],x[2]), 0); return; }
    RawMem<DensitySphericalHarmonic> m;
    new(&mut(m.p->ind)) math::SphHarmIndices(lmax, mmax, S(sym));
    m.p->logScaling = lsc; m.p->innerSlope = p[2]; m.p->outerSlope = p[3];
    V g(2); g[0] = p[0]; g[1] = p[1]; new(&mut(m.p->gridRadii)) V(g);
    m.p->spl.resize(m.p->ind.size());
    for(unsigned int c=0; c<m.p->ind.size(); c++) { m.p->spl[c].reset(new math::CubicSpline()); agv_reg(m.p->spl[c].get(), c); }
    o[0] = m.p->DensitySphericalHarmonic::densityCyl(PosCyl(x[0],x[1],x[2]), 0); }
// coefficients of a polynomial density at several radii
void d_coefs(int idx, int nr, const double* r, const double* c, double* o) {
    int lmax = idx&15, mmax = idx>>4&15, sym = idx>>8;
    VV co; PolyDens d(c, sym);
    computeSphHarmCoefs<BaseDensity>(d, math::SphHarmIndices(lmax, mmax, S(sym)), V(r, r+nr), &co);
    o[0] = co.size(); for(size_t i=0; i<co.size(); i++) for(int k=0; k<nr; k++) o[1+i*nr+k] = co[i].at(k); }
// coefficients of a polynomial potential and their radial derivatives
void d_pcoefs(int idx, int nr, const double* r, const double* c, double* o) {
    int lmax = idx&15, mmax = idx>>4&15, sym = idx>>8;
    VV co[2]; PolyPot d(c, sym);
    computePotentialCoefsFromSource(d, math::SphHarmIndices(lmax, mmax, S(sym)), V(r, r+nr), co);
    o[0] = co[0].size(); o[1] = co[1].size(); for(size_t i=0; i<co[0].size(); i++) for(int k=0; k<nr; k++) { *(o+2+2*(i*nr+k)) = co[0][i].at(k); *(o+3+2*(i*nr+k)) = co[1][i].at(k); } }
void d_restrict(int n, int nr, int idx, const double* p, double* o) {
    VV co[2] = { mat(p, n, nr), mat(p+n*nr, n, nr) }; restrictSphHarmCoefs<2>(idx&15, idx>>4&15, S(idx>>8), co);
    o[0] = co[0].size(); o[1] = co[1].size(); o += 2;
    for(int q=0; q<2; q++) for(size_t i=0; i<co[q].size(); i++) for(int k=0; k<nr; k++) o[(q*n+i)*nr+k] = co[q][i].at(k); }
// Multipole: choice of the component potential
void d_mp(int what, const double* rad, const double* x, int mask, double* o) {
    RawMem<Multipole> m;
    V g(3); g[0] = rad[0]; g[1] = rad[1]; g[2] = rad[2]; new(&mut(m.p->gridRadii)) V(g);
    new(&mut(m.p->ind)) math::SphHarmIndices(0, 0, coord::ST_SPHERICAL);
    m.p->asymptInner = PtrPotential(new AbsPotD(1)); m.p->impl = PtrPotential(new AbsPotD(2)); m.p->asymptOuter = PtrPotential(new AbsPotD(3));
    if(what==1) { o[0] = m.p->Multipole::densityCyl(PosCyl(x[0],x[1],x[2]), 0); return; }
    if(what==2) { o[0] = m.p->Multipole::enclosedMass(x[0]); return; }
    GradCyl G; HessCyl H;
    m.p->Multipole::evalCyl(PosCyl(x[0],x[1],x[2]), mask&1 ? o : NULL, mask&2 ? &G : NULL, mask&4 ? &H : NULL, 0);
    if(mask&2) IO<Cyl>::put(o+1, G);
    if(mask&4) IO<Cyl>::put(o+4, H); }
// a complete multipole potential of n coefficients
void d_full(int n, int nr, const double* p, const double* x, int mask, double* o) {
    Multipole M(V(p, p+nr), mat(p+nr, n, nr), mat(p+nr+n*nr, n, nr)); 
    if(mask&8) { o[0] = M.Multipole::densityCyl(PosCyl(x[0],x[1],x[2]), 0); return; }
    if(mask&16) { o[0] = M.enclosedMass(x[0]); return; }
    evcyl(M, x, mask, o); }
}
