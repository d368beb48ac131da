#include "drv.h"
extern "C" {
#define PV(A,B) \
void d_pv_##A##_##B(const double* in, double* out) { PosVelT<B> r = toPosVel<A,B>(IO<A>::pv(in)); r.unpack_to(out); } \
void d_p_##A##_##B(const double* in, double* out) { IO<B>::put(out, toPos<A,B>(IO<A>::pos(in))); } \
void d_rt_##A##_##B(const double* in, double* out) { PosVelT<A> r = toPosVel<B,A>(toPosVel<A,B>(IO<A>::pv(in))); r.unpack_to(out); }
PV(Car,Cyl) PV(Car,Sph) PV(Cyl,Car) PV(Cyl,Sph) PV(Sph,Car) PV(Sph,Cyl)
#define LL(A) \
void d_L_##A(const double* in, double* out) { PosVelT<A> p = IO<A>::pv(in); out[0]=Ltotal(p); out[1]=Lz(p); }
LL(Car) LL(Cyl) LL(Sph)
void d_mom_Cyl(const double* in, double* out) { IO<Cyl>::pv(in).momenta(out[0],out[1],out[2]); }
void d_mom_Sph(const double* in, double* out) { IO<Sph>::pv(in).momenta(out[0],out[1],out[2]); }
}
extern "C" {
// Axi: in = (rho, cotnu, phi, vrho, vnu, vphi), Delta2 passed separately
static PosVelAxi axi(const double* p, double D2) { return PosVelAxi(PosAxi(p[0],p[1],p[2],Axi(D2)), VelAxi(p[3],p[4],p[5])); }
void d_pv_Axi_Cyl(const double* in, double D2, double* out) { toPosVel<Axi,Cyl>(axi(in,D2)).unpack_to(out); }
void d_p_Axi_Cyl(const double* in, double D2, double* out) { IO<Cyl>::put(out, toPos<Axi,Cyl>(PosAxi(in[0],in[1],in[2],Axi(D2)))); }
void d_pv_Cyl_Axi(const double* in, double D2, double* out) { toPosVel<Cyl,Axi>(IO<Cyl>::pv(in), Axi(D2)).unpack_to(out); }
void d_p_Cyl_Axi(const double* in, double D2, double* out) { PosAxi p=toPos<Cyl,Axi>(IO<Cyl>::pos(in), Axi(D2)); out[0]=p.rho; out[1]=p.cotnu; out[2]=p.phi; }
void d_L_Axi(const double* in, double D2, double* out) { PosVelAxi p=axi(in,D2); out[0]=Ltotal(p); out[1]=Lz(p); }
void d_mom_Axi(const double* in, double D2, double* out) { axi(in,D2).momenta(out[0],out[1],out[2]); }
void d_pv_Cyl_Prol(const double* in, double D, double* out) { toPosVel<Cyl,ProlSph>(IO<Cyl>::pv(in), ProlSph(D)).unpack_to(out); }
void d_p_Cyl_Prol(const double* in, double D, double* out) { PosProlSph p=toPos<Cyl,ProlSph>(IO<Cyl>::pos(in), ProlSph(D)); out[0]=p.lambda; out[1]=p.nu; out[2]=p.phi; }
void d_p_Prol_Cyl(const double* in, double D, double* out) { IO<Cyl>::put(out, toPos<ProlSph,Cyl>(PosProlSph(in[0],in[1],in[2],ProlSph(D)))); }
// Orientation
void d_ori_mat(double a, double b, double c, double* m) { Orientation o(a,b,c); for(int i=0; i<9; i++) m[i]=o.mat[i]; }
void d_ori_to(double a, double b, double c, const double* v, double* out) { Orientation o(a,b,c); o.toRotated(v,out); }
void d_ori_from(double a, double b, double c, const double* v, double* out) { Orientation o(a,b,c); o.fromRotated(v,out); }
void d_ori_pv_to(double a, double b, double c, const double* v, double* out) { Orientation o(a,b,c); o.toRotated(PosVelCar(v)).unpack_to(out); }
void d_ori_pv_from(double a, double b, double c, const double* v, double* out) { Orientation o(a,b,c); o.fromRotated(PosVelCar(v)).unpack_to(out); }
void d_ori_pvs(double a, double b, double c, const double* v, double* out) { Orientation o(a,b,c);
    PosCar p=o.toRotated(PosCar(v[0],v[1],v[2])), q=o.fromRotated(PosCar(v[0],v[1],v[2]));
    VelCar s=o.toRotated(VelCar(v[0],v[1],v[2])), t=o.fromRotated(VelCar(v[0],v[1],v[2]));
    out[0]=p.x; out[1]=p.y; out[2]=p.z; out[3]=q.x; out[4]=q.y; out[5]=q.z;
    out[6]=s.vx; out[7]=s.vy; out[8]=s.vz; out[9]=t.vx; out[10]=t.vy; out[11]=t.vz; }
void d_ori_euler(double a, double b, double c, double* out) { Orientation o(a,b,c); o.toEulerAngles(out[0],out[1],out[2]); }
}
extern "C" {
void d_ori_v2(double a, double b, double c, int dir, const double* v, double* out) { Orientation o(a,b,c);
    Vel2Car w; w.vx2=v[0]; w.vy2=v[1]; w.vz2=v[2]; w.vxvy=v[3]; w.vyvz=v[4]; w.vxvz=v[5];
    Vel2Car r = dir ? o.toRotated(w) : o.fromRotated(w);
    out[0]=r.vx2; out[1]=r.vy2; out[2]=r.vz2; out[3]=r.vxvy; out[4]=r.vyvz; out[5]=r.vxvz; }
}
