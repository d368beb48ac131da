#include "math_specfunc.h"
// drivers for the 1d/2d/3d interpolators (includes the source in order to reach its internal functions)
#include "drv.h"
#include <vector>
// (not to be inlined: the deductive verifier treats it as an abstract function in some contracts)
#pragma GCC diagnostic ignored "-Wunused-function"
namespace math { namespace { __attribute__((noinline, unused)) void regularizeSpline(const std::vector<double>& xval, const double fval[], double fder[]); } }
#include "math_spline.cpp"
#include <new>
using namespace math;
namespace {
// a vector that borrows the given array (never destroyed)
inline void borrow(std::vector<double>& v, const double* p, ptrdiff_t n) {
    v._M_impl._M_start = const_cast<double*>(p); v._M_impl._M_finish = const_cast<double*>(p)+n; v._M_impl._M_end_of_storage = const_cast<double*>(p)+n; }
template<class T> struct Raw { alignas(T) char b[sizeof(T)]; T* p; Raw() { p = new(b) T(); } };
template<class S> inline void out1(const S& s, double x, double* o) { s.evalDeriv(x, o, o+1, o+2, o+3); }
template<class S> inline void sub1(const S& s, double x, int m, double* o) {
    s.evalDeriv(x, m&1 ? o : NULL, m&2 ? o+1 : NULL, m&4 ? o+2 : NULL, m&8 ? o+3 : NULL); }
typedef std::vector<double> V;
inline V vec(int n, const double* p) { return V(p, p+n); }
struct View { const double* p; };
struct Mon : public IFunctionIntegral {     // F(y) = sum c_k y^k, k<=2
    const double* c; Mon(const double* _c) : c(_c) {}
    virtual double integrate(double a, double b, int n) const { double r=0, pa=1, pb=1;
        for(int i=0; i<=n; i++) { pa *= a; pb *= b; }
        for(int k=0; k<3; k++) { r += c[k] * (pb-pa) / (n+k+1); pa *= a; pb *= b; } return r; }
};
}
extern "C" {
long d_bsearch(int n, const double* a, double x) { return binSearch(x, a, n); }
// ---- evaluation on a grid of any length ----
void d_lin(int n, const double* x, const double* f, double t, double* o) {
    Raw<LinearInterpolator> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); out1(*s.p, t, o); }
void d_cub(int n, const double* x, const double* f, const double* d, double t, double* o) {
    Raw<CubicSpline> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); borrow(s.p->fder, d, n); out1(*s.p, t, o); }
void d_qui(int n, const double* x, const double* f, const double* d, const double* e, double t, double* o) {
    Raw<QuinticSpline> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); borrow(s.p->fder, d, n); borrow(s.p->fder2, e, n); out1(*s.p, t, o); }
void d_linm(int m, int n, const double* x, const double* f, double t, double* o) {
    Raw<LinearInterpolator> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); sub1(*s.p, t, m, o); }
void d_cubm(int m, int n, const double* x, const double* f, const double* d, double t, double* o) {
    Raw<CubicSpline> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); borrow(s.p->fder, d, n); sub1(*s.p, t, m, o); }
void d_quim(int m, int n, const double* x, const double* f, const double* d, double t, double* o) {
    Raw<QuinticSpline> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); borrow(s.p->fder, d, n); borrow(s.p->fder2, f, n); sub1(*s.p, t, m, o); }
// B-splines of degree N at a point inside the segment ind
void d_bspl(int N, int D, int ind, int n, const double* g, double x, double* o) {
    switch(N) { case 0: bsplineDerivs<0>(D, x, ind, g, n, o); break; case 1: bsplineDerivs<1>(D, x, ind, g, n, o); break;
        case 2: bsplineDerivs<2>(D, x, ind, g, n, o); break; default: bsplineDerivs<3>(D, x, ind, g, n, o); } }
// value and derivatives of a B-spline given by its amplitudes: self-contained wrapper, and the interpolator without amplitudes
}
namespace {
template<int N> void bwrap(int n, const double* g, const double* a, double x, double* o) {
    typedef BsplineWrapper<N> W; alignas(W) char b[sizeof(W)]; for(size_t i=0; i<sizeof(W); i++) b[i]=0; W* w = (W*)b;
    borrow(const_cast<V&>(w->xval), g, n); borrow(const_cast<V&>(w->ampl), a, n+N-1);
    w->W::evalDeriv(x, o, o+1, o+2, o+3); }
template<int N> struct BI { typedef BsplineInterpolator1d<N> W; alignas(W) char b[sizeof(W)]; V amp;  const W* p;
    BI(int n, const double* g) { for(size_t i=0; i<sizeof(W); i++) b[i]=0; W* w = (W*)b; p = w;
        borrow(const_cast<V&>(w->xval), g, n); const_cast<unsigned int&>(w->numComp) = n+N-1; } };
template<int N> double binterp(int D, int n, const double* g, const double* a, double x) {
    BI<N> w(n, g); alignas(V) char vb[sizeof(V)]; V* v = new(vb) V(); borrow(*v, a, n+N-1); return w.p->interpolate(x, *v, D); }
template<int N> int bnz(int D, int n, const double* g, double x, double* o) { BI<N> w(n, g); return w.p->nonzeroComponents(x, D, o); }
template<int N> void beval(int add, int n, const double* g, double x, double mult, double* o) {
    BI<N> w(n, g); typedef BsplineInterpolator1d<N> W; if(add) w.p->W::addPoint(&x, mult, o); else w.p->W::eval(&x, o); }
template<int N> int bderiv(int anti, int n, const double* g, const double* a, double* o) {
    BsplineInterpolator1d<N> w(vec(n, g)); V r = anti ? w.antideriv(vec(n+N-1, a)) : w.deriv(vec(n+N-1, a));
    for(size_t i=0; i<r.size(); i++) o[i] = r[i]; return r.size(); }
}
#define SW(N, F) switch(N) { case 0: F(0) break; case 1: F(1) break; case 2: F(2) break; default: F(3) }
extern "C" {
void d_bwrap(int N, int n, const double* g, const double* a, double x, double* o) {
#define F(K) bwrap<K>(n, g, a, x, o);
    SW(N, F)
#undef F
}
double d_binterp(int N, int D, int n, const double* g, const double* a, double x) {
#define F(K) return binterp<K>(D, n, g, a, x);
    SW(N, F)
#undef F
}
long d_bnz(int N, int D, int n, const double* g, double x, double* o) {
#define F(K) return bnz<K>(D, n, g, x, o);
    SW(N, F)
#undef F
}
// all basis functions at a point (add=0), or those of a point of the given weight added to an array of zeros
void d_beval(int N, int add, int n, const double* g, double x, double mult, double* o) {
    if(add) for(int i=0; i<n+N-1; i++) o[i] = 0;
#define F(K) beval<K>(add, n, g, x, mult, o);
    SW(N, F)
#undef F
}
// amplitudes of the derivative or the antiderivative
long d_bderiv(int N, int anti, int n, const double* g, const double* a, double* o) {
#define F(K) return bderiv<K>(anti, n, g, a, o);
    SW(N, F)
#undef F
}
// modified basis of a natural cubic spline: values (D=0, with extrapolation) or derivatives; returns the index of the first one
long d_bnat(int D, int n, const double* g, double x, double* o) {
    switch(D) { case 0: return bsplineNaturalCubicValues(x, g, n, o); case 1: return bsplineNaturalCubicDerivs<1>(x, g, n, o);
        case 2: return bsplineNaturalCubicDerivs<2>(x, g, n, o); default: return bsplineNaturalCubicDerivs<3>(x, g, n, o); } }
long d_bext(int N, int n, const double* g, double x, double* o) {
    switch(N) { case 1: return bsplineValuesExtrapolated<1>(x, g, n, o); case 2: return bsplineValuesExtrapolated<2>(x, g, n, o); default: return bsplineValuesExtrapolated<3>(x, g, n, o); } }
// ---- construction: derivatives at the nodes ----
void d_ccub(int n, int mode, const double* x, const double* f, double dl, double dr, double* o) {
    CubicSpline s(vec(n,x), vec(n,f), mode&4, mode&1 ? dl : NAN, mode&2 ? dr : NAN);
    for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fder[i]; } }
void d_ccubamp(int n, int deg, const double* x, const double* a, double* o) {
    CubicSpline s(vec(n,x), vec(n+deg-1,a));
    for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fder[i]; } }
void d_ccubh(int n, const double* x, const double* f, const double* d, double* o) {
    CubicSpline s(vec(n,x), vec(n,f), vec(n,d)); for(int i=0; i<n; i++) { o[i] = s.xval[i]; o[n+i] = s.fval[i]; o[2*n+i] = s.fder[i]; } }
void d_cqui(int n, int mode, const double* x, const double* f, const double* d, double dl, double dr, double* o) {
    if(mode<4) { QuinticSpline s(vec(n,x), vec(n,f), mode&1 ? dl : NAN, mode&2 ? dr : NAN);
        for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fder[i]; o[2*n+i] = s.fder2[i]; } }
    else { QuinticSpline s(vec(n,x), vec(n,f), vec(n,d)); for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fder[i]; o[2*n+i] = s.fder2[i]; } } }
void d_cquih(int n, const double* x, const double* f, const double* d, const double* e, double* o) {
    QuinticSpline s(vec(n,x), vec(n,f), vec(n,d), vec(n,e)); for(int i=0; i<n; i++) { o[i] = s.xval[i]; o[n+i] = s.fval[i]; o[2*n+i] = s.fder[i]; o[3*n+i] = s.fder2[i]; } }
void d_clin(int n, const double* x, const double* f, double* o) { LinearInterpolator s(vec(n,x), vec(n,f)); for(int i=0; i<n; i++) { o[i] = s.xval[i]; o[n+i] = s.fval[i]; } }
void d_reg(int n, const double* x, const double* f, const double* d, double* o) {
    for(int i=0; i<n; i++) o[i] = d[i]; regularizeSpline(vec(n,x), f, o); }
// ---- log-log spline ----
void d_llog(int n, int q, const double* x, const double* f, const double* lf, const double* ld, const double* ld2, const double* lx, double t, double* o) {
    Raw<LogLogSpline> s; borrow(s.p->xval, x, n); borrow(s.p->fval, f, n); borrow(s.p->logxval, lx, n); borrow(s.p->logfval, lf, n); borrow(s.p->logfder, ld, n);
    if(q&1) borrow(s.p->logfder2, ld2, n); borrow(s.p->fder, ld2+n, n); s.p->nonnegative = (q&2)!=0;
    s.p->evalDeriv(t, q&4 ? NULL : o, q&8 ? NULL : o+1, q&16 ? NULL : o+2); }
void d_cllog(int n, int mode, const double* x, const double* f, const double* d, double dl, double dr, double* o) {
    if(mode<4) { LogLogSpline s(vec(n,x), vec(n,f), mode&1 ? dl : NAN, mode&2 ? dr : NAN);
        for(int i=0; i<n; i++) { o[i] = s.logxval[i]; o[n+i] = s.logfval[i]; o[2*n+i] = s.logfder[i]; o[3*n+i] = s.fder[i]; } }
    else { LogLogSpline s(vec(n,x), vec(n,f), vec(n,d));
        for(int i=0; i<n; i++) { o[i] = s.logxval[i]; o[n+i] = s.logfval[i]; o[2*n+i] = s.logfder[i]; o[3*n+i] = s.logfder2[i]; } } }
}
// ---- integrals, convolutions, roots ----
namespace {
template<int N> void vander(const double* x, const double* y, double* c) { vandermonde<N>(x, y, c); }
struct Sp { LinearInterpolator* l; CubicSpline* c; QuinticSpline* q; const BaseInterpolator1d* b;
    alignas(QuinticSpline) char mem[sizeof(QuinticSpline)];
    Sp(int kind, int n, const double* x, const double* f) {
        switch(kind) {
            case 0: l = new(mem) LinearInterpolator(); borrow(l->xval, x, n); borrow(l->fval, f, n); b = l; break;
            case 1: c = new(mem) CubicSpline(); borrow(c->xval, x, n); borrow(c->fval, f, n); borrow(c->fder, f+n, n); b = c; break;
            default: q = new(mem) QuinticSpline(); borrow(q->xval, x, n); borrow(q->fval, f, n); borrow(q->fder, f+n, n); borrow(q->fder2, f+2*n, n); b = q; } } };
template<int N> struct BW { typedef BsplineWrapper<N> W; alignas(W) char b[sizeof(W)]; const W* p;
    BW(int n, const double* g, const double* a) { for(size_t i=0; i<sizeof(W); i++) b[i]=0; W* w = (W*)b; p = w;
        borrow(const_cast<V&>(w->xval), g, n); borrow(const_cast<V&>(w->ampl), a, n+N-1); } };
struct Rts { int m; const double* r; int operator()(int i, double* o) const { for(int k=0; k<m; k++) o[k] = r[i*m+k]; return m; } };
inline int ret(const V& v, double* o, int max) { int n = v.size(); for(int i=0; i<n && i<max; i++) o[i] = v[i]; return n; }
}
extern "C" {
void d_vander(int N, const double* x, const double* y, double* c) {
    switch(N) { case 0: vander<0>(x,y,c); break; case 1: vander<1>(x,y,c); break; case 2: vander<2>(x,y,c); break; case 3: vander<3>(x,y,c); break;
        case 4: vander<4>(x,y,c); break; default: vander<5>(x,y,c); } }
long d_solvelin(double a1, double a0, double* o) { return solveLinear(a1, a0, o); }
long d_solvequad(double a2, double a1, double a0, double* o) { return solveQuadratic(a2, a1, a0, o); }
long d_solvecub(double a3, double a2, double a1, double a0, double* o) { return solveCubic(a3, a2, a1, a0, o); }
long d_solvequart(double a4, double a3, double a2, double a1, double a0, double* o) { return solveQuartic(a4, a3, a2, a1, a0, o); }
double d_integ(int kind, int n, int p, const double* x, const double* f, double x1, double x2) { Sp s(kind, n, x, f);
    return kind==0 ? s.l->LinearInterpolator::integrate(x1, x2, p) : kind==1 ? s.c->CubicSpline::integrate(x1, x2, p) : s.q->QuinticSpline::integrate(x1, x2, p); }
double d_integF(int kind, int n, const double* x, const double* f, const double* c, double x1, double x2) { Sp s(kind, n, x, f); Mon F(c);
    return kind==0 ? s.l->LinearInterpolator::integrate(x1, x2, F) : kind==1 ? s.c->CubicSpline::integrate(x1, x2, F) : s.q->QuinticSpline::integrate(x1, x2, F); }
double d_convF(int kind, int n, const double* x, const double* f, const double* c, double x1) { Sp s(kind, n, x, f); Mon F(c);
    return kind==0 ? s.l->LinearInterpolator::convolve(x1, F) : kind==1 ? s.c->CubicSpline::convolve(x1, F) : s.q->QuinticSpline::convolve(x1, F); }
double d_binteg(int N, int n, int p, const double* x, const double* a, double x1, double x2) {
    switch(N) { case 0: return BW<0>(n,x,a).p->BsplineWrapper<0>::integrate(x1,x2,p); case 1: return BW<1>(n,x,a).p->BsplineWrapper<1>::integrate(x1,x2,p);
        case 2: return BW<2>(n,x,a).p->BsplineWrapper<2>::integrate(x1,x2,p); default: return BW<3>(n,x,a).p->BsplineWrapper<3>::integrate(x1,x2,p); } }
// generic root selection with arbitrary candidate roots (m per segment, relative to its left end)
long d_roots(int n, int m, const double* x, const double* f, const double* r, double x1, double x2, double* o) {
    Sp s(0, n, x, f); Rts R; R.m = m; R.r = r; return ret(findRoots<false>(*s.b, x1, x2, R), o, 4*n); }
long d_extgen(int n, int m, const double* x, const double* f, const double* r, double x1, double x2, double* o) {
    Sp s(0, n, x, f); Rts R; R.m = m; R.r = r; return ret(findRoots<true>(*s.b, x1, x2, R), o, 8); }
long d_linroots(int n, const double* x, const double* f, double y, double x1, double x2, double* o) {
    Sp s(0, n, x, f); return ret(s.l->LinearInterpolator::roots(y, x1, x2), o, n); }
long d_cubext(int n, const double* x, const double* f, double x1, double x2, double* o) {
    Sp s(1, n, x, f); return ret(s.c->CubicSpline::extrema(x1, x2), o, 4*n); }
long d_linext(int n, const double* x, const double* f, double x1, double x2, double* o) {
    Sp s(0, n, x, f); return ret(s.l->LinearInterpolator::extrema(x1, x2), o, n+1); }
// coefficients of the polynomial whose roots are sought on a segment
double d_erf(double x) { return math::erf(x); }
double d_monint(int m, int n, double x1, double x2) { return Monomial(m).integrate(x1, x2, n); }
void d_moneval(int m, double x, double* o) { Monomial(m).evalDeriv(x, o, o+1, o+2); }
double d_gaussint(double sigma, int n, double x1, double x2) { return Gaussian(sigma).integrate(x1, x2, n); }
void d_gausseval(double sigma, double x, double* o) { Gaussian(sigma).evalDeriv(x, o, o+1, o+2); }
}
namespace {
template<int N> void feproj(int n, int dp, int dq, const double* x, const double* f, double* v, double* m, int nofnc) {
    BsplineInterpolator1d<N> bi(vec(n, x)); FiniteElement1d<N> fe(bi); int g = (n-1)*(N+1), nb = n+N-1;
    V fv = vec(g, f); V r = fe.computeProjVector(fv, dp); for(int i=0; i<nb; i++) v[i] = r[i];
    BandMatrix<double> M = nofnc ? fe.computeProjMatrix(V(), dp, dq) : fe.computeProjMatrix(fv, dp, dq);
    for(int i=0; i<nb; i++) for(int j=0; j<nb; j++) m[i*nb+j] = (i-j>N || j-i>N) ? 0 : M(i, j); }
template<int N> void fenodes(int n, const double* x, double* o) { BsplineInterpolator1d<N> bi(vec(n, x)); FiniteElement1d<N> fe(bi); V g = fe.integrPoints(); for(size_t i=0; i<g.size(); i++) o[i]=g[i]; }
template<int N> void feconv(int n, int sign, int d, const double* x, const double* c, double t, double mult, double* v) {
    BsplineInterpolator1d<N> bi(vec(n, x)); FiniteElement1d<N> fe(bi); Mon K(c); for(int i=0; i<n+N-1; i++) v[i] = 0;
    if(sign) fe.template addPointConv<true>(t, mult, K, d, v); else fe.template addPointConv<false>(t, mult, K, d, v); }
}
extern "C" {
void d_feproj(int N, int n, int dpq, const double* x, const double* f, double* v) { int dp = dpq&3, dq = dpq>>2&3, nofnc = dpq>>4; double* m = v+(n+N-1);
#define F(K) feproj<K>(n, dp, dq, x, f, v, m, nofnc);
    SW(N, F)
#undef F
}
void d_fenodes(int N, int n, const double* x, double* o) {
#define F(K) fenodes<K>(n, x, o);
    SW(N, F)
#undef F
}
void d_feconv(int N, int n, int signd, const double* x, const double* c, double t, double mult, double* v) {
#define F(K) feconv<K>(n, signd&1, signd>>1, x, c, t, mult, v);
    SW(N, F)
#undef F
}
}
extern "C" {
// roots and extrema of the interpolators, found in the result (at most max of them)
long d_sproots(int kind, int n, const double* x, const double* f, double* o, double y, double x1, double x2) { Sp s(kind, n, x, f);
    return ret(kind==0 ? s.l->LinearInterpolator::roots(y, x1, x2) : s.c->CubicSpline::roots(y, x1, x2), o, 8); }
long d_spext(int kind, int n, const double* x, const double* f, double* o, double x1, double x2) { Sp s(kind, n, x, f);
    return ret(kind==0 ? s.l->LinearInterpolator::extrema(x1, x2) : kind==1 ? s.c->CubicSpline::extrema(x1, x2) : s.q->QuinticSpline::extrema(x1, x2), o, 8); }
long d_bsroots(int N, int n, const double* x, const double* a, double* o, double y, double x1, double x2) {
    switch(N) { case 0: return ret(BW<0>(n,x,a).p->BsplineWrapper<0>::roots(y,x1,x2), o, 8); case 1: return ret(BW<1>(n,x,a).p->BsplineWrapper<1>::roots(y,x1,x2), o, 8);
        case 2: return ret(BW<2>(n,x,a).p->BsplineWrapper<2>::roots(y,x1,x2), o, 8); default: return ret(BW<3>(n,x,a).p->BsplineWrapper<3>::roots(y,x1,x2), o, 8); } }
long d_bsext(int N, int n, const double* x, const double* a, double* o, double x1, double x2) {
    switch(N) { case 0: return ret(BW<0>(n,x,a).p->BsplineWrapper<0>::extrema(x1,x2), o, 8); case 1: return ret(BW<1>(n,x,a).p->BsplineWrapper<1>::extrema(x1,x2), o, 8);
        case 2: return ret(BW<2>(n,x,a).p->BsplineWrapper<2>::extrema(x1,x2), o, 8); default: return ret(BW<3>(n,x,a).p->BsplineWrapper<3>::extrema(x1,x2), o, 8); } }
// roots of the polynomial of one segment (kind 1: cubic D=0, 2: cubic D=1, 3: quintic D=1, 4+4*D+N: B-spline)
long d_segroots(int kind, int ind, int n, const double* x, const double* f, double* o, double y) {
    alignas(V) char m[4][sizeof(V)]; V* v[4]; for(int i=0; i<4; i++) v[i] = new(m[i]) V();
    borrow(*v[0], x, n); borrow(*v[1], f, kind>=4 ? n+(kind&3)-1 : n); borrow(*v[2], f+n, n); borrow(*v[3], f+2*n, n);
    switch(kind) { case 1: return RootsCubicSpline<0>(*v[0], *v[1], *v[2], y)(ind, o); case 2: return RootsCubicSpline<1>(*v[0], *v[1], *v[2])(ind, o);
        case 3: return RootsDerivQuinticSpline(*v[0], *v[1], *v[2], *v[3])(ind, o);
        case 5: return RootsBspline<1,0>(*v[0], *v[1], y)(ind, o); case 6: return RootsBspline<2,0>(*v[0], *v[1], y)(ind, o); case 7: return RootsBspline<3,0>(*v[0], *v[1], y)(ind, o);
        case 10: return RootsBspline<2,1>(*v[0], *v[1])(ind, o); default: return RootsBspline<3,1>(*v[0], *v[1])(ind, o); } }
}
extern "C" {
void d_ugrid(int n, double a, double b, double* o) { V g = createUniformGrid(n, a, b); for(size_t i=0; i<g.size(); i++) o[i] = g[i]; }
void d_egrid(int n, double a, double b, double* o) { V g = createExpGrid(n, a, b); for(size_t i=0; i<g.size(); i++) o[i] = g[i]; }
void d_ngrid(int n, int zero, double a, double b, double* o) { V g = createNonuniformGrid(n, a, b, zero!=0); for(size_t i=0; i<g.size(); i++) o[i] = g[i]; }
long d_mgrid(int n, const double* x, double* o) { V g = mirrorGrid(vec(n, x)); for(size_t i=0; i<g.size(); i++) o[i] = g[i]; return g.size(); }
void d_sgrid(int n, double a, double b, double* o) { V g = createSymmetricGrid(n, a, b); for(size_t i=0; i<g.size(); i++) o[i] = g[i]; }
}
// ---- 2d and 3d interpolators ----
namespace {
template<class T> struct RawMem { alignas(T) char b[sizeof(T)]; T* p; RawMem() { for(size_t i=0; i<sizeof(T); i++) b[i]=0; p = (T*)b; } };
inline void brw(const V& v, const double* p, ptrdiff_t n) { borrow(const_cast<V&>(v), p, n); }
template<class S> inline void ev2(const S& s, int m, double px, double py, double* o) {
    s.S::evalDeriv(px, py, m&1 ? o : NULL, m&2 ? o+1 : NULL, m&4 ? o+2 : NULL, m&8 ? o+3 : NULL, m&16 ? o+4 : NULL, m&32 ? o+5 : NULL); }
inline Matrix<double> mat(int nx, int ny, const double* f) { Matrix<double> m(nx, ny); for(int i=0; i<nx; i++) for(int j=0; j<ny; j++) m(i,j) = f[i*ny+j]; return m; }
}
extern "C" {
// kind 0: bilinear, 1: cubic, 2: quintic; f contains 1, 4 or 9 arrays of nx*ny node values
void d_i2d(int kind, int m, int nxy, const double* x, const double* y, const double* f, double px, double py, double* o) {
    int nx = nxy / 16, ny = nxy % 16, n = nx*ny;
    if(kind==0) { RawMem<LinearInterpolator2d> s; brw(s.p->xval, x, nx); brw(s.p->yval, y, ny); brw(s.p->fval, f, n); ev2(*s.p, m, px, py, o); }
    else if(kind==1) { RawMem<CubicSpline2d> s; brw(s.p->xval, x, nx); brw(s.p->yval, y, ny); brw(s.p->fval, f, n);
        brw(s.p->fx, f+n, n); brw(s.p->fy, f+2*n, n); brw(s.p->fxy, f+3*n, n); ev2(*s.p, m, px, py, o); }
    else { RawMem<QuinticSpline2d> s; brw(s.p->xval, x, nx); brw(s.p->yval, y, ny); brw(s.p->fval, f, n); brw(s.p->fx, f+n, n); brw(s.p->fy, f+2*n, n);
        brw(s.p->fxy, f+3*n, n); brw(s.p->fxx, f+4*n, n); brw(s.p->fyy, f+5*n, n); brw(s.p->fxxy, f+6*n, n); brw(s.p->fxyy, f+7*n, n); brw(s.p->fxxyy, f+8*n, n); ev2(*s.p, m, px, py, o); } }
// construction of the cubic spline (reg: regularize); e = slopes at the ends (NaN: natural)
void d_ccub2(int nxy, int mode, const double* x, const double* y, const double* f, const double* e, double* o) {
    int nx = nxy / 16, ny = nxy % 16, n = nx*ny;
    CubicSpline2d s(vec(nx,x), vec(ny,y), mat(nx,ny,f), mode&16, mode&1 ? e[0] : NAN, mode&2 ? e[1] : NAN, mode&4 ? e[2] : NAN, mode&8 ? e[3] : NAN);
    for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fx[i]; o[2*n+i] = s.fy[i]; o[3*n+i] = s.fxy[i]; } }
// construction of the quintic spline; f contains 3 (mixed=0) or 4 arrays
void d_cqui2(int nxy, int mixed, const double* x, const double* y, const double* f, double* o) {
    int nx = nxy / 16, ny = nxy % 16, n = nx*ny;
    QuinticSpline2d s(vec(nx,x), vec(ny,y), mat(nx,ny,f), mat(nx,ny,f+n), mat(nx,ny,f+2*n), mixed ? mat(nx,ny,f+3*n) : Matrix<double>());
    for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fx[i]; o[2*n+i] = s.fy[i]; o[3*n+i] = s.fxy[i]; o[4*n+i] = s.fxx[i]; o[5*n+i] = s.fyy[i];
        o[6*n+i] = s.fxxy[i]; o[7*n+i] = s.fxyy[i]; o[8*n+i] = s.fxxyy[i]; } }
// kind 0: trilinear, 1: cubic (8 arrays: f, fx, fy, fz, fxy, fxz, fyz, fxyz)
double d_i3d(int kind, int nxyz, const double* x, const double* y, const double* z, const double* f, double px, double py, double pz) {
    int nx = nxyz / 256, ny = nxyz / 16 % 16, nz = nxyz % 16, n = nx*ny*nz;
    if(kind==0) { RawMem<LinearInterpolator3d> s; brw(s.p->xval, x, nx); brw(s.p->yval, y, ny); brw(s.p->zval, z, nz); brw(s.p->fval, f, n);
        return s.p->LinearInterpolator3d::value(px, py, pz); }
    RawMem<CubicSpline3d> s; brw(s.p->xval, x, nx); brw(s.p->yval, y, ny); brw(s.p->zval, z, nz); brw(s.p->fval, f, n);
    brw(s.p->fx, f+n, n); brw(s.p->fy, f+2*n, n); brw(s.p->fz, f+3*n, n); brw(s.p->fxy, f+4*n, n); brw(s.p->fxz, f+5*n, n); brw(s.p->fyz, f+6*n, n); brw(s.p->fxyz, f+7*n, n);
    return s.p->CubicSpline3d::value(px, py, pz); }
// construction of the 3d cubic spline from values (nf=nx*ny*nz) or amplitudes (nf=(nx+2)*(ny+2)*(nz+2))
void d_ccub3(int nxyz, int nf, const double* x, const double* y, const double* z, const double* f, double* o) {
    int nx = nxyz / 256, ny = nxyz / 16 % 16, nz = nxyz % 16, n = nx*ny*nz;
    CubicSpline3d s(vec(nx,x), vec(ny,y), vec(nz,z), vec(nf&65535,f), nf>>16);
    for(int i=0; i<n; i++) { o[i] = s.fval[i]; o[n+i] = s.fx[i]; o[2*n+i] = s.fy[i]; o[3*n+i] = s.fz[i]; o[4*n+i] = s.fxy[i]; o[5*n+i] = s.fxz[i]; o[6*n+i] = s.fyz[i]; o[7*n+i] = s.fxyz[i]; } }
}
namespace {
template<int N> struct B3 { typedef BsplineInterpolator3d<N> W; RawMem<W> m; V* keep;
    B3(int nxyz, const double* x, const double* y, const double* z) { int nx = nxyz/256, ny = nxyz/16%16, nz = nxyz%16;
        brw(m.p->xval, x, nx); brw(m.p->yval, y, ny); brw(m.p->zval, z, nz); const_cast<unsigned int&>(m.p->numComp) = (nx+N-1)*(ny+N-1)*(nz+N-1); } };
template<int N> long b3num(int nxyz, const double* x, const double* y, const double* z) { BsplineInterpolator3d<N> b(vec(nxyz/256,x), vec(nxyz/16%16,y), vec(nxyz%16,z)); return b.numValues(); }
template<int N> void b3w(int nxyz, const double* x, const double* y, const double* z, const double* p, double* o) { B3<N> b(nxyz,x,y,z); unsigned int l[3];
    b.m.p->nonzeroComponents(p, l, o+3); for(int i=0; i<3; i++) o[i] = l[i]; }
template<int N> double b3i(int nxyz, const double* x, const double* y, const double* z, const double* p, const double* a) { B3<N> b(nxyz,x,y,z);
    V v; V* w = new(&v) V(); borrow(*w, a, b.m.p->numComp); double r = b.m.p->interpolate(p, *w); borrow(*w, 0, 0); return r; }
}
#define SW13(N, F) if(N==1) { F(1) } else { F(3) }
namespace {
template<int N> void b3e(int nxyz, const double* x, const double* y, const double* z, const double* p, double* o) { B3<N> b(nxyz,x,y,z); b.m.p->BsplineInterpolator3d<N>::eval(p, o); }
template<int N> double b3v(int nxyz, const double* x, const double* y, const double* z, const double* p, int i) { B3<N> b(nxyz,x,y,z); return b.m.p->valueOfComponent(p, i); }
template<int N> void b3d(int nxyz, const double* x, const double* y, const double* z, int i, double* o) { B3<N> b(nxyz,x,y,z); b.m.p->nonzeroDomain(i, o, o+3);
    unsigned int ind[3]; b.m.p->decomposeIndComp(i, ind); for(int k=0; k<3; k++) o[6+k] = ind[k]; o[9] = b.m.p->indComp(ind[0], ind[1], ind[2]); }
}
extern "C" {
// N + 4*nxyz (degree and numbers of nodes); g = nodes in x, y, z one after another
#define XYZ nx>>2, g, g+(nx>>10), g+(nx>>10)+((nx>>6)&15)
long d_b3num(int nx, const double* g) {
#define F(K) return b3num<K>(XYZ);
    SW13((nx&3), F)
#undef F
}
void d_b3w(int nx, const double* g, const double* p, double* o) {
#define F(K) b3w<K>(XYZ, p, o);
    SW13((nx&3), F)
#undef F
}
double d_b3i(int nx, const double* g, const double* p, const double* a) {
#define F(K) return b3i<K>(XYZ, p, a);
    SW13((nx&3), F)
#undef F
}
void d_b3e(int nx, const double* g, const double* p, double* o) {
#define F(K) b3e<K>(XYZ, p, o);
    SW13((nx&3), F)
#undef F
}
double d_b3v(int nx, const double* g, const double* p, int i) {
#define F(K) return b3v<K>(XYZ, p, i);
    SW13((nx&3), F)
#undef F
}
void d_b3d(int nx, const double* g, int i, double* o) {
#define F(K) b3d<K>(XYZ, i, o);
    SW13((nx&3), F)
#undef F
}
}
