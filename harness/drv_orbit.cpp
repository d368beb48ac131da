#include "pot.h"
#include "orbit.h"
#include "orbit_variational.h"
using namespace orbit;
namespace {
double fn1(int id, double t) { int d = 0; return agv_f(id, 1, &d, &t); }
// ODE solver that keeps the state it was given; solution at other times is an abstract function of time
struct MockSolver : public math::BaseOdeSolver {
    double st[6], tst; const double* steps; int nsteps, istep, inits; bool posdir;
    MockSolver(const math::IOdeSystem& s) : BaseOdeSolver(s), tst(0), steps(NULL), nsteps(0), istep(0), inits(0), posdir(true) { for(int i=0; i<6; i++) st[i]=0; }
    virtual void init(const double s[], double t) { for(int i=0; i<6; i++) st[i] = s[i]; if(t==t) time = t; tst = time; inits++; }
    virtual double doStep(double dt) { posdir &= !std::signbit(dt); double h = istep<nsteps ? steps[istep] : 0; istep++; time += h; return h; }
    virtual double getSol(double t, unsigned int i) const { return t==tst ? st[i] : fn1(20+i, t); }
};
template<class CS> struct Sub : public OrbitIntegrator<CS> {
    MockSolver* m;
    Sub(const potential::BasePotential& p, double Om, size_t maxsteps=100) : OrbitIntegrator<CS>(p, Om, OrbitIntParams(1e-8, maxsteps)), m(new MockSolver(*this)) { this->solver.reset(m); }
};
// integrator with an abstract trajectory
struct MockInt : public BaseOrbitIntegrator {
    MockInt(const potential::BasePotential& p, double Om) : BaseOrbitIntegrator(p, Om, OrbitIntParams()) {}
    virtual void eval(const double, const double[], double[]) const {}
    virtual void eval(const double, const double[], double[], double[]) const {}
    virtual void init(const coord::PosVelCar&, double) {}
    virtual coord::PosVelCar getSol(double t) const { return coord::PosVelCar(fn1(20,t), fn1(21,t), fn1(22,t), fn1(23,t), fn1(24,t), fn1(25,t)); }
};
// records the intervals passed by run()
struct Rec : public BaseRuntimeFnc { double* o; int n, stop; Rec(BaseOrbitIntegrator& b, double* _o, int _stop) : BaseRuntimeFnc(b), o(_o), n(0), stop(_stop) {}
    virtual bool processTimestep(double a, double b) { o[2*n] = a; o[2*n+1] = b; n++; return n!=stop; } };
}
extern "C" {
#define D(CS) \
void d_rhs_##CS(double Om, double t, const double* x, double* o) { AbsPotCar p(0); OrbitIntegrator<CS> oi(p, Om); oi.eval(t, x, o); } \
double d_acc_##CS(double t, const double* x) { AbsPotCar p(0); OrbitIntegrator<CS> oi(p); return oi.getAccuracyFactor(t, x); } \
void d_round_##CS(double Om, double t, const double* ic, double* o) { AbsPotCar p(0); Sub<CS> oi(p, Om); oi.init(coord::PosVelCar(ic), t); oi.getSol(t).unpack_to(o); o[6] = oi.m->getTime(); o[7] = oi.m->inits; } \
void d_reinit_##CS(double Om, double t, const double* ic, double* o) { AbsPotCar p(0); Sub<CS> oi(p, Om); double z[6]={1,1,1,0,0,0}; oi.m->init(z, t); \
    oi.init(coord::PosVelCar(ic)); oi.getSol(t).unpack_to(o); o[6] = oi.m->getTime(); o[7] = oi.m->inits; } \
void d_sol_##CS(double Om, double t, const double* s, double* nat, double* car) { AbsPotCar p(0); Sub<CS> oi(p, Om); oi.m->init(s, t); \
    double t1 = oi.m->getTime(); oi.getSolNative(t1).unpack_to(nat); oi.getSol(t1).unpack_to(car); }
D(Car) D(Cyl) D(Sph)
void d_herm(double Om, double t, const double* x, double* a, double* j) { AbsPotCar p(0); OrbitIntegrator<Car> oi(p, Om); oi.eval(t, x, a, j); }
void d_hermCyl(double t, const double* x, double* a, double* j) { AbsPotCar p(0); OrbitIntegrator<Cyl> oi(p); oi.eval(t, x, a, j); }
void d_hermSph(double t, const double* x, double* a, double* j) { AbsPotCar p(0); OrbitIntegrator<Sph> oi(p); oi.eval(t, x, a, j); }
double d_solver(int herm) { AbsPotCar p(0); OrbitIntegrator<Car> oi(p, 0, OrbitIntParams(1e-8, 100, herm!=0));
    return (dynamic_cast<math::OdeSolverHermite*>(oi.solver.get()) ? 1 : 0) + (dynamic_cast<math::OdeSolverDOP853*>(oi.solver.get()) ? 2 : 0); }
// variational equation
void d_vareq(double Om, double t, double* x, double* a, double* b) {
    AbsPotCar p(0); MockInt mi(p, Om); double lyap; RuntimeVariational v(mi, 1, NULL, &lyap); v.orbitalPeriod = 0; mi.getSol(t).unpack_to(x); v.eval(t, a, b); v.outputLyapunovExponent = NULL; }
// deviation vector vec of the solver reported in the rotating frame; all other vectors are zero
double d_store(double Om, double t, double addlog, const double* dev, int vec, double* o) {
    AbsPotCar p(0); MockInt mi(p, Om); Trajectory out[6]; RuntimeVariational v(mi, 1, out, NULL); v.addLogDevVec = addlog;
    double st[36]; for(int i=0; i<36; i++) st[i] = i/6==vec ? dev[i%6] : 0;
    v.varEqSolver.init(st, t); double r = v.storeSolution(t, 0);
    for(int j=0; j<6; j++) { out[j][0].first.unpack_to(o+7*j); o[7*j+6] = out[j][0].second; }
    return r; }
// run() with given step lengths; returns the number of calls of the runtime function
double d_run(double t0, double total, int n, const double* steps, int maxsteps, int stop, double* iv, double* sol) {
    AbsPotCar p(0); Sub<Car> oi(p, 0, maxsteps); double z[6]={0,0,0,0,0,0}; oi.m->init(z, t0); oi.m->tst = NAN; oi.m->steps = steps; oi.m->nsteps = n;
    Rec* r = new Rec(oi, iv, stop), *r2 = new Rec(oi, iv+2*n, 0); oi.addRuntimeFnc(PtrRuntimeFnc(r)); oi.addRuntimeFnc(PtrRuntimeFnc(r2));
    oi.run(total).unpack_to(sol); sol[6] = oi.m->posdir; sol[7] = r2->n; return r->n; }
// trajectory recording: steps at the times t[0..n]; o = 7 numbers for each recorded point
double d_traj(double dt, int n, const double* t, int maxout, double* o) {
    AbsPotCar p(0); MockInt mi(p, 0); Trajectory tr; RuntimeTrajectory rt(mi, dt, tr);
    for(int i=0; i<n; i++) rt.processTimestep(t[i], t[i+1]);
    for(int i=0; i<maxout && i<(int)tr.size(); i++) { tr[i].first.unpack_to(o+7*i); o[7*i+6] = tr[i].second; }
    return tr.size(); }
double d_trajinf(int n, const double* t, double* o) { return d_traj(INFINITY, n, t, 1, o); }
}
