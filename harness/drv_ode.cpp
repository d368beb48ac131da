#include "drv.h"
#include "math_ode.h"
#include <stdexcept>
namespace math { double initTimeStep(const IOdeSystem&, double, const double[], double, double); }
using namespace math;
namespace {
// system of n equations whose i-th evaluation records its arguments and returns the i-th given vector
struct Rec : public IOdeSystem {
    int n, max; const double* k; double* log; mutable int i; double fac;
    Rec(int _n, int _max, const double* _k, double* _log, double f=1) : n(_n), max(_max), k(_k), log(_log), i(0), fac(f) {}
    virtual unsigned int size() const { return n; }
    virtual double getAccuracyFactor(const double, const double*) const { return fac; }
    virtual void eval(const double t, const double x[], double d[]) const {
        if(i>=max) throw std::runtime_error("");
        log[i*(n+1)] = t;
        for(int j=0; j<n; j++) { log[i*(n+1)+1+j] = x[j]; d[j] = k[i*n+j]; }
        i++; }
};
struct RecH : public IOdeSystemHermite {
    int n, max; const double* k; double* log; mutable int i;   // n positions
    RecH(int _n, int _max, const double* _k, double* _log) : n(_n), max(_max), k(_k), log(_log), i(0) {}
    virtual unsigned int size() const { return 2*n; }
    virtual void eval(const double, const double x[], double d[]) const { for(int j=0; j<n; j++) { d[j] = x[n+j]; d[n+j] = 0; } }
    virtual void eval(const double t, const double x[], double a[], double b[]) const {
        if(i>=max) throw std::runtime_error("");
        log[i*(2*n+1)] = t;
        for(int j=0; j<2*n; j++) log[i*(2*n+1)+1+j] = x[j];
        for(int j=0; j<n; j++) { a[j] = k[2*n*i+j]; b[j] = k[2*n*i+n+j]; }
        i++; }
};
struct Rec2 : public IOde2System {
    int n; const double* m; double* log; mutable int i;   // n dimensions; matrices a, b of each evaluation
    Rec2(int _n, const double* _m, double* _log) : n(_n), m(_m), log(_log), i(0) {}
    virtual unsigned int size() const { return 2*n; }
    virtual void eval(double t, double a[], double b[]) const { log[i] = t; for(int j=0; j<n*n; j++) { a[j] = m[i*2*n*n+j]; b[j] = m[i*2*n*n+n*n+j]; } i++; }
};
}
extern "C" {
// one step of given length: s = {t0, dt, accRel, accAbs, accuracy factor}; o = {return, time, nextTimeStep, number of evaluations, getSol(t0) [n], getSol(t0+dt) [n], getSol(t) [n]}
void d_dop(int n, const double* s, const double* x, const double* k, double* log, double* o, double t) {
    Rec r(n, 13, k, log, s[4]); OdeSolverDOP853 d(r, s[2], s[3]); d.nextTimeStep = 1; d.init(x, s[0]);
    o[0] = d.doStep(s[1]); o[1] = d.getTime(); o[2] = d.getTimeStep(); o[3] = r.i;
    for(int i=0; i<n; i++) { o[4+i] = d.getSol(s[0], i); o[4+n+i] = d.getSol(d.getTime(), i); o[4+2*n+i] = d.getSol(t, i); } }
// step of automatic length starting with the guess h (sign of dir), at most two attempts
void d_dopauto(int dir, const double* s, const double* x, const double* k, double* log, double* o) {
    Rec r(1, 25, k, log, s[4]); OdeSolverDOP853 d(r, s[2], s[3]); d.nextTimeStep = s[1]; d.init(x, s[0]);
    o[0] = d.doStep(dir>0 ? 0.0 : -0.0); o[1] = d.getTime(); o[2] = d.getTimeStep(); o[3] = r.i; o[4] = d.getSol(d.getTime(), 0); }
// second step continues from the end of the first one
void d_dop2(const double* s, const double* x, const double* k, double* log, double* o, double t) {
    Rec r(1, 25, k, log); OdeSolverDOP853 d(r, 0, 1); d.nextTimeStep = 1; d.init(x, s[0]); d.doStep(s[1]); o[0] = d.getSol(d.getTime(), 0); d.doStep(s[2]);
    o[1] = d.getTime(); o[2] = d.getSol(s[0]+s[1], 0); o[3] = d.getSol(d.getTime(), 0); o[4] = d.getSol(t, 0); }
// after init: o = {time, solution [n], derivative stored, time step}
void d_dopinit(int n, const double* s, const double* x, const double* k, double* log, double* o) {
    Rec r(n, 13, k, log); OdeSolverDOP853 d(r, s[2], s[3]); d.nextTimeStep = s[1]; d.init(x, s[0]); o[0] = d.getTime(); o[1] = d.getTimeStep(); o[2] = r.i;
    for(int i=0; i<n; i++) o[3+i] = d.getSol(s[0], i); }
double d_inittime(const double* s, const double* x, const double* k, double* log) { Rec r(1, 13, k, log); return initTimeStep(r, s[0], x, s[3], s[2]); }
double d_range(int which, int n) { double x[12] = {0}, k[12] = {0}, log[13]; 
    if(which==0) { Rec r(n, 1, k, log); OdeSolverDOP853 d(r); d.nextTimeStep = 1; d.init(x, 0); return d.getSol(0, n); }
    double m[72] = {0}; Rec2 r(3, m, log);
    if(which==1) { Ode2SolverGL3<3> g(r, n); g.init(x, 0); return g.getSol(0, 6*n); }
    Ode2SolverGL4<3> g(r, n); g.init(x, 0); return g.getSol(0, 6*n); }
// Hermite
void d_hermstep(int n, const double* s, const double* x, const double* k, double* log, double* o, double t) {
    RecH r(n, 2, k, log); OdeSolverHermite d(r, 1e-8); d.nextTimeStep = 1; d.init(x, s[0]);
    for(int i=0; i<2*n; i++) o[3+6*n+i] = d.getSol(s[0], i);
    o[0] = d.doStep(s[1]); o[1] = d.getTime(); o[2] = r.i;
    for(int i=0; i<2*n; i++) { o[3+i] = d.getSol(s[0], i); o[3+2*n+i] = d.getSol(d.getTime(), i); o[3+4*n+i] = d.getSol(t, i); } }
void d_hermauto(int dir, const double* s, const double* x, const double* k, double* log, double* o) {
    RecH r(1, 6, k, log); OdeSolverHermite d(r, 1e-8); d.nextTimeStep = s[1]; d.init(x, s[0]);
    o[0] = d.doStep(dir>0 ? 0.0 : -0.0); o[1] = d.getTime(); o[2] = r.i; o[3] = d.getSol(d.getTime(), 0); o[4] = d.getSol(d.getTime(), 1); }
#define GL(name, cls, N, nst) \
void d_##name(int nvec, const double* s, const double* st, const double* m, double* log, double* o, double t) { \
    Rec2 r(N, m, log); cls g(r, nvec); double z[64] = {0}; g.init(z, s[0]); g.newstep = s[2]!=0; \
    for(int v=0; v<nvec; v++) for(int i=0; i<nst*N; i++) g.state[v*nst*N+i] = st[v*nst*N+i]; \
    for(int i=0; i<2*N*nvec; i++) o[i] = g.getSol(s[0], i); \
    if(s[1]!=0) g.doStep(s[1]); \
    for(int i=0; i<2*N*nvec; i++) { o[2*N*nvec+i] = g.getSol(g.time, i); o[4*N*nvec+i] = g.getSol(t, i); } \
    o[6*N*nvec] = g.time; o[6*N*nvec+1] = r.i; } \
void d_##name##init(int nvec, const double* s, const double* x, double* o, double t) { Rec2 r(N, NULL, NULL); cls g(r, nvec); double z[64] = {1,1,1}; g.init(z, 5); g.newstep = false; g.init(x, s[0]); \
    for(int i=0; i<2*N*nvec; i++) o[i] = g.getSol(s[0], i); o[2*N*nvec] = g.newstep; for(int i=0; i<2*N*nvec; i++) o[2*N*nvec+1+i] = g.getSol(t, i); }
typedef Ode2SolverGL3<3> G33; typedef Ode2SolverGL4<3> G43; typedef Ode2SolverGL3<2> G32; typedef Ode2SolverGL4<2> G42; typedef Ode2SolverGL3<1> G31; typedef Ode2SolverGL4<1> G41;
GL(gl33, G33, 3, 5) GL(gl43, G43, 3, 6) GL(gl32, G32, 2, 5) GL(gl42, G42, 2, 6) GL(gl31, G31, 1, 5) GL(gl41, G41, 1, 6)
}
