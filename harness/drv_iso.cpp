// drivers for action-angle variables of the isochrone potential (C14)
#include "actions_isochrone.h"
#include "potential_analytic.h"
#include "drv.h"
using namespace actions;
extern "C" {
// outputs: actions, angles, frequencies (each set is requested if the corresponding bit of the mask is set)
void d_iso(const double* p, const double* x, int mask, double* o) {
    Actions J; Angles A; Frequencies F;
    evalIsochrone(p[0], p[1], coord::PosVelCyl(x[0],x[1],x[2],x[3],x[4],x[5]), mask&1 ? &J : NULL, mask&2 ? &A : NULL, mask&4 ? &F : NULL);
    if(mask&1) { o[0] = J.Jr; o[1] = J.Jz; o[2] = J.Jphi; }
    if(mask&2) { o[3] = A.thetar; o[4] = A.thetaz; o[5] = A.thetaphi; }
    if(mask&4) { o[6] = F.Omegar; o[7] = F.Omegaz; o[8] = F.Omegaphi; } }
void d_map(const double* p, const double* a, int mask, double* o) {
    Frequencies F;
    coord::PosVelCyl x = mapIsochrone(p[0], p[1], ActionAngles(Actions(a[0],a[1],a[2]), Angles(a[3],a[4],a[5])), mask ? &F : NULL);
    o[0] = x.R; o[1] = x.z; o[2] = x.phi; o[3] = x.vR; o[4] = x.vz; o[5] = x.vphi;
    if(mask) { o[6] = F.Omegar; o[7] = F.Omegaz; o[8] = F.Omegaphi; } }
void d_pot(const double* p, const double* x, double* o) {
    potential::Isochrone I(p[0], p[1]); coord::GradCyl g; I.eval(coord::PosCyl(x[0],x[1],x[2]), o, &g); o[1] = g.dR; o[2] = g.dz; o[3] = g.dphi; }
}
