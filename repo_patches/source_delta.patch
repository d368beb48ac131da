From 9e5c0f16aa0df0b34ad0cfd1264b197ecf66920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 01/22] fix: sign of the mixed second derivatives of the
 ProlSph->Cyl transformation

---
 src/coord.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coord.cpp b/src/coord.cpp
index 8132a76..37014fc 100644
--- a/src/coord.cpp
+++ b/src/coord.cpp
@@ -282,10 +282,10 @@ PosCyl toPosDeriv(const PosProlSph& p, PosDerivT<ProlSph, Cyl>* deriv, PosDeriv2
     if(deriv2!=NULL) {
         deriv2->d2Rdlambda2   = -0.25*R / pow_2(lminusd);
         deriv2->d2Rdnu2       = -0.25*R / pow_2(nminusd);
-        deriv2->d2Rdlambdadnu = -0.25*R / (lminusd * nminusd * sign);
+        deriv2->d2Rdlambdadnu =  0.25*R / (lminusd * nminusd * sign);
         deriv2->d2zdlambda2   = -0.25*z / pow_2(p.lambda);
         deriv2->d2zdnu2       = -0.25*z / pow_2(p.nu);
-        deriv2->d2zdlambdadnu = -0.25*z / (p.lambda * p.nu);
+        deriv2->d2zdlambdadnu =  0.25*z / (p.lambda * p.nu);
     }
     return PosCyl(R, z, p.phi);
 }
-- 
2.43.0


From 749b4677828b5fc6064344f16cb4cdd8d418ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 02/22] fix: sign of the second derivatives of the KeplerBinary
 potential

---
 src/potential_analytic.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/potential_analytic.cpp b/src/potential_analytic.cpp
index 315eab2..ae0a914 100644
--- a/src/potential_analytic.cpp
+++ b/src/potential_analytic.cpp
@@ -210,12 +210,12 @@ void KeplerBinary::evalCar(const coord::PosCar &pos,
             deriv->dz += z * minvr * invr2;
         }
         if(deriv2) {
-            deriv2->dx2  += minvr * invr2 * (3 * pow_2(x) * invr2 - 1);
-            deriv2->dy2  += minvr * invr2 * (3 * pow_2(y) * invr2 - 1);
-            deriv2->dz2  += minvr * invr2 * (3 * pow_2(z) * invr2 - 1);
-            deriv2->dxdy += minvr * pow_2(invr2) * 3 * x * y;
-            deriv2->dydz += minvr * pow_2(invr2) * 3 * y * z;
-            deriv2->dxdz += minvr * pow_2(invr2) * 3 * x * z;
+            deriv2->dx2  -= minvr * invr2 * (3 * pow_2(x) * invr2 - 1);
+            deriv2->dy2  -= minvr * invr2 * (3 * pow_2(y) * invr2 - 1);
+            deriv2->dz2  -= minvr * invr2 * (3 * pow_2(z) * invr2 - 1);
+            deriv2->dxdy -= minvr * pow_2(invr2) * 3 * x * y;
+            deriv2->dydz -= minvr * pow_2(invr2) * 3 * y * z;
+            deriv2->dxdz -= minvr * pow_2(invr2) * 3 * x * z;
         }
     }
 }
-- 
2.43.0


From 66f57cb71b8dbb0c396f0ba5114f2fa4f7fb62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:18 +0000
Subject: [PATCH 03/22] fix: enclosed mass of a KeplerBinary without a
 secondary component

---
 src/potential_analytic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_analytic.h b/src/potential_analytic.h
index b957019..4268e09 100644
--- a/src/potential_analytic.h
+++ b/src/potential_analytic.h
@@ -176,7 +176,7 @@ public:
     { return (params.sma==0 || params.q==0 ? coord::ST_SPHERICAL : coord::ST_NONE); }
     virtual double totalMass() const { return params.mass; }
     virtual double enclosedMass(const double radius) const
-    { return radius>=params.sma ? params.mass : 0; }
+    { return radius>=params.sma || params.q==0 ? params.mass : 0; }
 private:
     const KeplerBinaryParams params;   ///< parameters of the binary
     virtual void evalCar(const coord::PosCar &pos,
-- 
2.43.0


From 08e897f9c4dbd9a689fc7d46bb572cc6d6189e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:19 +0000
Subject: [PATCH 04/22] fix: equations of motion at negative R or r, or theta
 outside 0..pi

In cylindrical and spherical coordinates an orbit may cross the z axis or the
origin (e.g. when it starts there and is integrated backward in time), and then
the internal variables R, r, theta retain their signs; the equations of motion used
the absolute value of R, r and sin(theta), which reversed the rotation and the
centrifugal force.
---
 src/orbit.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/orbit.cpp b/src/orbit.cpp
index 122d984..2f50205 100644
--- a/src/orbit.cpp
+++ b/src/orbit.cpp
@@ -221,7 +221,8 @@ void OrbitIntegrator<coord::Cyl>::eval(const double time, const double x[], doub
     }
     coord::GradCyl grad;
     potential.eval(p, NULL, &grad, NULL, time);
-    double Rinv = p.R!=0 ? 1/p.R : 0;  // avoid NAN in degenerate cases
+    // note that the sign of R is retained in the equations of motion, also avoid NAN in degenerate cases
+    double Rinv = x[0]!=0 ? 1/x[0] : 0;
     if(x[0]<0)
         grad.dR = -grad.dR;
     dxdt[0] = p.vR;
@@ -259,15 +260,16 @@ void OrbitIntegrator<coord::Sph>::eval(const double time, const double x[], doub
     const coord::PosVelSph p(r, theta, phi, x[3], x[4], x[5]);
     coord::GradSph grad;
     potential.eval(p, NULL, &grad, NULL, time);
-    double rinv = r!=0 ? 1/r : 0, sintheta, costheta;
-    math::sincos(theta, sintheta, costheta);
+    // the signs of r and theta are retained in the equations of motion
+    double rinv = x[0]!=0 ? 1/x[0] : 0, sintheta, costheta;
+    math::sincos(x[1], sintheta, costheta);
     double sinthinv = sintheta!=0 ? 1./sintheta : 0;
     double cottheta = costheta * sinthinv;
     dxdt[0] = p.vr;
     dxdt[1] = p.vtheta * rinv;
     dxdt[2] = p.vphi * rinv * sinthinv - Omega;
     dxdt[3] = -grad.dr*signr + (pow_2(p.vtheta) + pow_2(p.vphi)) * rinv;
-    dxdt[4] = (-grad.dtheta*signt + pow_2(p.vphi)*cottheta - p.vr*p.vtheta) * rinv;
+    dxdt[4] = (-grad.dtheta*signr*signt + pow_2(p.vphi)*cottheta - p.vr*p.vtheta) * rinv;
     dxdt[5] = (-grad.dphi * sinthinv - (p.vr+p.vtheta*cottheta) * p.vphi) * rinv;
 }
 
-- 
2.43.0


From 452aec67da58b13b64b2922a796bdc00332cf110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 05/22] fix: interpolated velocity of the 8th-order
 Gauss-Legendre ODE solver

---
 src/math_ode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_ode.cpp b/src/math_ode.cpp
index bc275c7..3bb6254 100644
--- a/src/math_ode.cpp
+++ b/src/math_ode.cpp
@@ -730,7 +730,7 @@ double Ode2SolverGL4<NDIM>::getSol(double t, unsigned int i) const
     if(i == d)  // d-th component of x(t)
         return (*x) + T * ((*xdot) + T * ((*p) + T * ((*q) + T * ((*r) + T * (*s)))));
     else        // d-th component of dx(t)/dt
-        return (*xdot) + T * (2 * (*p) + T * (3 * (*q) + T * 4 * ((*r) + T * 5 * (*s))));
+        return (*xdot) + T * (2 * (*p) + T * (3 * (*q) + T * (4 * (*r) + T * 5 * (*s))));
 }
 
 template<int NDIM>
-- 
2.43.0


From 1aff821c5ab6e791d255756f0716ef7e144a19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:39 +0000
Subject: [PATCH 06/22] fix: solution of the Hermite ODE solver right after
 initialization

---
 src/math_ode.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_ode.cpp b/src/math_ode.cpp
index 3bb6254..f8d9924 100644
--- a/src/math_ode.cpp
+++ b/src/math_ode.cpp
@@ -484,6 +484,8 @@ double OdeSolverHermite::getSol(double t, unsigned int ind) const
 {
     size_t numVar = NDIM/2;  // dimension of either coordinate or momentum vector
     size_t i = ind % numVar;
+    if(t==time)  // end of the completed timestep, or no steps have been made after calling init()
+        return state[ind + NDIM*2];
     double deltat = t - timePrev;
     if(ind < numVar) {  // interpolate position
         return state[i+0*numVar] + deltat * (state[i+numVar] + deltat/2*(state[i+2*numVar] +
-- 
2.43.0


From 16c1b2581ac36991dacdfe5822cc642cdf648b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 07/22] fix: BsplineInterpolator1d::eval wrote past a local
 array and left the output zero

---
 src/math_spline.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index a7e2ea4..aecd8be 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -1888,8 +1888,7 @@ void BsplineInterpolator1d<N>::eval(const double* x, double values[]) const
     const int size = xval.size(), ind = binSearch(*x, &xval[0], size);
     if(ind<0 || ind>=size-1)
         return;
-    double bspl[N+1];
-    bsplineValues<N>(*x, ind, &xval[0], size, bspl+ind);
+    bsplineValues<N>(*x, ind, &xval[0], size, values+ind);
 }
 
 template<int N>
-- 
2.43.0


From ca33ade000ae9e01c630ab12cb3484b78f45ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 08/22] fix: clamped cubic spline with symmetric values but
 non-antisymmetric endpoint derivatives

---
 src/math_spline.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index aecd8be..bab9ad9 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -452,9 +452,9 @@ std::vector<double> constructCubicSpline(const std::vector<double>& xval,
     }
     std::vector<double> fder = solveBand(mat, rhs);
 
-    // check if the input nodes and values are symmetric w.r.t. grid center -
-    // if yes, make the derivatives exactly antisymmetric too
-    bool symmetric = true;
+    // check if the input nodes and values (and the endpoint derivatives, if provided)
+    // are symmetric w.r.t. grid center - if yes, make the derivatives exactly antisymmetric too
+    bool symmetric = (!isFinite(derivLeft) && !isFinite(derivRight)) || derivLeft == -derivRight;
     for(size_t i=0; symmetric && i<(numPoints+1)/2; i++)
         symmetric &= xval[i] == -xval[numPoints-1-i] && fval[i] == fval[numPoints-1-i];
     if(symmetric) {
-- 
2.43.0


From 1f55cb9844fc1df844765f890ebd5049e5afb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 09/22] fix: out-of-bounds read in the integral of an
 interpolator times a function

---
 src/math_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index bab9ad9..b542837 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -793,7 +793,7 @@ double integratePiecewise(const BaseInterpolator1d& S, const IFunctionIntegral&
         double t1 = CONV ? x-xval[i+1] : std::max(x1, xval[i]);
         double t2 = CONV ? x-xval[i]   : std::min(x2, xval[i+1]);
         I0[i-i1] = F.integrate(t1, t2, 0);
-        sum += I0[i];
+        sum += I0[i-i1];
     }
 
     double result = 0;
-- 
2.43.0


From bfc18dd647959da76b358fb9573452446523f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 10/22] fix: roots and extrema of an interpolator on an
 interval outside its grid

---
 src/math_spline.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index b542837..8f432bf 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -941,6 +941,8 @@ std::vector<double> findRoots(
     swapIfNeeded(x1, x2);
     x1 = fmax(x1, xval[0]);
     x2 = fmin(x2, xval[size-1]);
+    if(x1>x2)   // the interval does not overlap with the interpolation grid
+        return result;
     double prevValue, sign;
     if(EXTREMA) {
         result.push_back(x1);
@@ -1099,6 +1101,8 @@ std::vector<double> findExtremaBspline(
     swapIfNeeded(x1, x2);
     x1 = fmax(x1, xval[0]);
     x2 = fmin(x2, xval[size-1]);
+    if(x1>x2)   // the interval does not overlap with the interpolation grid
+        return result;
     int i1 = binSearch(x1, &xval.front(), size);
     int i2 = binSearch(x2, &xval.front(), size);
     assert(i1 >= 0 && i2 <= (int)size-2);  // ampl.size() is size-1 (for N=0) or size (for N=1)
-- 
2.43.0


From 8db869011bba0a1802526235d455585676384c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 11/22] fix: do not report the root at a node located exactly
 at zero twice (PiecewisePolynomial/Bspline roots)

---
 src/math_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 8f432bf..11b535d 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -396,7 +396,7 @@ inline bool swapIfNeeded(double& x1, double& x2)
 
 inline bool isLarger(double x1, double x2, double eps=10*DBL_EPSILON)
 {
-    return x1 >= x2 + std::max(fabs(x1), fabs(x2)) * eps;
+    return x1 > x2 + std::max(fabs(x1), fabs(x2)) * eps;
 }
 
 inline void fillVals(double* x0, double* x1, double* x2, double* x3=NULL,
-- 
2.43.0


From 315705e100b54dd5a6eadf621835e6f33f7e6a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 12/22] fix: DoublePowerLaw: value of a cored DF at zero
 actions (was 0 or infinity instead of the finite limit)

---
 src/df_halo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/df_halo.cpp b/src/df_halo.cpp
index ddb922b..aad0e7d 100644
--- a/src/df_halo.cpp
+++ b/src/df_halo.cpp
@@ -102,9 +102,10 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
     if(par.Jcutoff>0)   // exponential cutoff at large J
         *value *= exp(-gJcz);
     if(par.Jcore>0) {   // central core of nearly-constant f(J) at small J
-        if(h==0)
-            *value = par.norm / pow_3(2*M_PI * par.J0);
-        *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
+        if(h==0)  // take the limit of the product of two diverging factors analytically
+            *value = par.norm / pow_3(2*M_PI * par.J0) * math::pow(par.J0 / par.Jcore, par.slopeIn);
+        else
+            *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
     }
     // add the odd part if necessary
     double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
-- 
2.43.0


From ce61f8f26b255b1e0ce6104009136ac0a1b87a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 13/22] fix: DoublePowerLaw: NaN at Jphi=0 for a rotating DF
 without a non-rotating core (Jphi0=0)

---
 src/df_halo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/df_halo.cpp b/src/df_halo.cpp
index aad0e7d..703cdbd 100644
--- a/src/df_halo.cpp
+++ b/src/df_halo.cpp
@@ -108,7 +108,7 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
             *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
     }
     // add the odd part if necessary
-    double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
+    double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY && J.Jphi!=0 ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
     *value *= (1+rot);
 
     if(deriv) {
-- 
2.43.0


From bb484bf4f9bfbd577f1c5aa5c59e2688eb67a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 14/22] fix: QuasiSphericalCOM: zero rather than NaN for bound
 orbits with Q>=0

---
 src/df_spherical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/df_spherical.cpp b/src/df_spherical.cpp
index 62468f4..3aeeb08 100644
--- a/src/df_spherical.cpp
+++ b/src/df_spherical.cpp
@@ -605,7 +605,7 @@ void QuasiSphericalCOM::evalDeriv(const ClassicalIntegrals& ints,
         deriv->dbyLz = 0;
     }
     // check for invalid range - this shouldn't happen in normal circumstances, so be picky here
-    if(ints.L<0 || fabs(ints.Lz)>ints.L || P<0)
+    if(ints.L<0 || fabs(ints.Lz)>ints.L || (Q<0 && P<0))
         *value = NAN;
 }
 
-- 
2.43.0


From d381db049a1fea911c4dfe8890966483a5e2759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:12 +0000
Subject: [PATCH 15/22] fix: Interpolator: zero slope of the vertical frequency
 ratio at both ends of the grid

The constructor of CubicSpline takes the 'regularize' flag before the endpoint derivatives,
so that only the left derivative was set to zero, and the ratio was extrapolated linearly
in log(R) beyond the right end of the grid.
---
 src/potential_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index efbe0e9..abfe447 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -859,7 +859,7 @@ Interpolator::Interpolator(const BasePotential& potential) :
     }
 
     // init various 1d splines
-    freqNu = math::CubicSpline  (gridLogR, gridNu,   0, 0);  // set endpoint derivatives to zero
+    freqNu = math::CubicSpline  (gridLogR, gridNu, /*regularize*/false, 0, 0);  // set endpoint derivatives to zero
     LofE   = math::QuinticSpline(gridE,    gridL,    gridLder);
     RofL   = math::QuinticSpline(gridL,    gridLogR, gridRder);
     PhiofR = math::QuinticSpline(gridLogR, gridPhi,  gridPhider);
-- 
2.43.0


From 7fe929a6857c864503414be8d1458e0e2822c192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:27 +0000
Subject: [PATCH 16/22] fix: projectedEval: subtract the potential along the
 same rotated line of sight

The projected potential is the integral of Phi(X,Y,Z)-Phi(0,0,Z), where both points must be transformed
from the observed to the intrinsic coordinates; the second one was not.
---
 src/potential_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index abfe447..1539e7b 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -127,7 +127,7 @@ public:
             needPhi? &Phi : NULL, needGrad? &grad_int : NULL, needHess? &hess_int : NULL, time);
         int numOutputs = 0;
         if(needPhi) {
-            pot.eval(coord::PosCar(0, 0, Z), &Phi0, NULL, NULL, time);
+            pot.eval(orientation.fromRotated(coord::PosCar(0, 0, Z)), &Phi0, NULL, NULL, time);
             values[numOutputs++] = nan2num((Phi-Phi0) * dZds);
         }
         if(needGrad) {
-- 
2.43.0


From a3a71d4a53553d6dc82afe6a02ebc0962c76295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:38 +0000
Subject: [PATCH 17/22] fix: Multipole of order lmax=2 ignored m=1 harmonics in
 the potential for models with y-reflection symmetry and only one of
 z-reflection or mirror symmetry

The optimized routine for lmax=2, mmin=0, step=2 processes only the terms
(0,0), (2,0), (2,2); the symmetries ST_YREFLECTION|ST_ZREFLECTION and
ST_YREFLECTION|ST_REFLECTION also satisfy this condition, but retain the
(1,1) or (2,1) terms, which were silently dropped.
---
 src/potential_multipole.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 720179e..f3a67a1 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -630,7 +630,7 @@ void fourierTransformAzimuth(const math::SphHarmIndices& ind, const double phi,
     }
 }
 
-/** optimized version of sphHarmTransformInverseDeriv for the case lmax=2, mmin=0, step=2,
+/** optimized version of sphHarmTransformInverseDeriv for the case lmax=2, mmin=0, step=2, no m=1 terms,
     processing only the {l=0,m=0}, {l=2,m=0} and optionally {l=2,m=2} terms (a common special case)
 */
 void sphHarmTransformInverseDeriv2(
@@ -694,7 +694,7 @@ void sphHarmTransformInverseDeriv(
     const double C_lm[], const double dC_lm[], const double d2C_lm[],
     double *val, coord::GradSph *grad, coord::HessSph *hess)
 {
-    if(ind.lmax==2 && ind.mmin()==0 && ind.step==2) {  // an optimized special case
+    if(ind.lmax==2 && ind.mmin()==0 && ind.step==2 && ind.lmin(1)>2) {  // an optimized special case
         sphHarmTransformInverseDeriv2(ind, pos, C_lm, dC_lm, d2C_lm, val, grad, hess);
         return;
     }
-- 
2.43.0


From 1cc7f136d0ec751e42cd13ab218da36ae5fef206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:08 +0000
Subject: [PATCH 18/22] fix: Multipole dropped the non-axisymmetric and odd-l
 harmonics outside the radial grid for mass distributions of finite extent

The indexing scheme of PowerLawMultipole was deduced only from the coefficients
U of terms with nonzero density, which all are zero when there is no mass
outside the grid, while the coefficients W of the vacuum terms are not.
The potential was discontinuous at the outermost grid radius.
---
 src/potential_multipole.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index f3a67a1..28f9a0d 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -109,6 +109,16 @@ inline math::SphHarmIndices getIndicesFromCoefs(
     return getIndicesFromCoefs<2>(A);
 }
 
+// deduce the symmetry from the coefficients that are non-zero in either of the two arrays
+inline math::SphHarmIndices getIndicesFromCoefs(
+    const std::vector<double> &U, const std::vector<double> &W)
+{
+    std::vector<double> D(U);
+    for(unsigned int c=0; c<D.size(); c++)
+        D[c] = fabs(U[c]) + fabs(W[c]);
+    return math::getIndicesFromCoefs(D);
+}
+
 // resize the array(s) of coefficients down to the requested order and eliminate all-zero terms.
 // \tparam  K  is the number of arrays (one for density, two for potential and its radial derivative);
 // \param[in]  lmax  is the maximum order of angular expansion in cos(theta);
@@ -1451,7 +1461,7 @@ PowerLawMultipole::PowerLawMultipole(double _r0, bool _inner,
     const std::vector<double>& _S,
     const std::vector<double>& _U,
     const std::vector<double>& _W) :
-    ind(math::getIndicesFromCoefs(_U)), r0sq(_r0*_r0), inner(_inner), S(_S), U(_U), W(_W) 
+    ind(getIndicesFromCoefs(_U, _W)), r0sq(_r0*_r0), inner(_inner), S(_S), U(_U), W(_W) 
 {
     // safeguard against errors in slope determination -
     // ensure that all harmonics with l>0 do not asymptotically overtake the principal one (l=0).
-- 
2.43.0


From dc7d973fcd0eb3f8d57d1fe60a75adffaacd6c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:06 +0000
Subject: [PATCH 19/22] fix: density of logarithmic l>0 terms in the
 extrapolated multipole potential

In the degenerate case s==v the Laplacian of r^s ln(r) Y_lm is
[(s(s+1)-l(l+1)) ln r + 2s+1] r^(s-2) Y_lm = (2s+1) r^(s-2) Y_lm;
the code left out the l(l+1) term and agreed with this only for l=0.
---
 src/potential_multipole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 28f9a0d..fa190f4 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -1548,7 +1548,7 @@ double PowerLawMultipole::densityCyl(const coord::PosCyl &pos, double /*time*/)
             if(s!=v)
                 rho_lm[c] = ursm2 * (s*(s+1) - l*(l+1));
             else
-                rho_lm[c] = ursm2 * (s*(s+1) * dlogr - s*(s-1) + 1);
+                rho_lm[c] = ursm2 * (2*s+1);  // the terms with dlogr cancel out, because s*(s+1) = l*(l+1)
         }
 
     if(lmax == 0) {  // fast track - just return the l=0 coef
-- 
2.43.0


From 0ed0f83b843de0e9ae08bf028c2b9866edd3d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:51 +0000
Subject: [PATCH 20/22] fix: mapIsochrone is periodic in the radial angle

---
 src/actions_isochrone.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index f32b6a8..da875dc 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -74,12 +74,14 @@ coord::PosVelCyl mapIsochrone(
     double fac2 = (1 + ecc + j0invsq) * J0 / L1;  // sqrt( (1+x2) / (1+x1) )
 
     // quantities below depend on angles
-    double eta = math::solveKepler(ecc, aa.thetar); // thetar = eta - ecc * sin(eta)
+    double thetar = math::wrapAngle(aa.thetar);
+    double eta = math::solveKepler(ecc, thetar); // thetar = eta - ecc * sin(eta)
     double sineta, coseta, sinpsi, cospsi;
     math::sincos(eta, sineta, coseta);
     double ra = 1 - ecc * coseta;   // Kepler problem:  r / a = 1 - e cos(eta)
     double tanhalfeta = coseta==-1 ? INFINITY : sineta / (1 + coseta);
-    double thetar   = aa.thetar - (eta>M_PI ? 2*M_PI : 0);
+    if(eta>M_PI)
+        thetar -= 2*M_PI;
     double psi1     = atan(fac1 * tanhalfeta);
     double psi2     = atan(fac2 * tanhalfeta);
     double psi      = aa.thetaz - LL1 * thetar + psi1 + psi2 * L/L1;
-- 
2.43.0


From d2e98e271412ead2fb6ff6d0fe89c190d0dedabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:51 +0000
Subject: [PATCH 21/22] fix: sign of the radial force of a prolate
 PerfectEllipsoid near its focal ring at z<0

---
 src/potential_perfect_ellipsoid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_perfect_ellipsoid.cpp b/src/potential_perfect_ellipsoid.cpp
index 4fa0d86..a5c35d3 100644
--- a/src/potential_perfect_ellipsoid.cpp
+++ b/src/potential_perfect_ellipsoid.cpp
@@ -145,7 +145,7 @@ void PerfectEllipsoid::evalCyl(const coord::PosCyl &pos,
     double D  = sqrt(fabs(D2)), A = scaleRadiusA, B = scaleRadiusB;
     // offset along the direction between origin and the focal point (away from origin)
     double p = (D2<=0 ? pos.R : fabs(pos.z)) - D;
-    double signp = (D<=0 || pos.z>=0 ? 1 : -1);  // flip the sign of derivative if D2>0 and z<0
+    double signp = (D2<=0 || pos.z>=0 ? 1 : -1);  // flip the sign of derivative if D2>0 and z<0
     // offset in the perpendicular direction
     double q = (D2<=0 ? pos.z : pos.R);
     // extent of the region where the Taylor expansion is more accurate than the actual potential:
-- 
2.43.0


From f21fe1cd88bdcb678c5854d74d01d1b934496b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:30 +0000
Subject: [PATCH 22/22] fix: vertical angle of the Staeckel action finder in
 the equatorial plane and at the lower turning point

---
 src/actions_staeckel.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index ccaa2f8..7ad02d8 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -638,11 +638,12 @@ Angles computeAngles(const AxisymIntDerivatives& derI, const AxisymGenFuncDeriva
     on the angles (assuming that the actions are constant); in principle, this may be used
     to skip the computation of the matrix of integral derivatives (not presently implemented).
     \param[in]  fnc  is the instance of `AxisymFunctionStaeckel` or `AxisymFunctionFudge`.
+    \param[in]  point  is the position/velocity from which this function was constructed.
     \param[out] act  if not NULL, store actions in this variable.
     \param[out] ang  if not NULL, store angles in this variable.
     \param[out] freq if not NULL, store frequencies in this variable.
 */
-void evalAxisym(const AxisymFunctionBase& fnc,
+void evalAxisym(const AxisymFunctionBase& fnc, const coord::PosVelCyl& point,
     Actions* act, Angles* ang, Frequencies* freq)
 {
     if(!isFinite(fnc.E+fnc.I3+fnc.Lz) || fnc.E>=0) {
@@ -663,7 +664,11 @@ void evalAxisym(const AxisymFunctionBase& fnc,
             *freq = derI;
         if(ang) {
             AxisymGenFuncDerivatives derS = computeGenFuncDerivatives(fnc, lim);
-            bool addPiToThetaZ = fnc.point.nudot<0 && fnc.Lz!=0;
+            // nu has the same sign as z and changes monotonically with it, but nudot is zero both
+            // in the equatorial plane (regardless of v_z) and at the upper or lower turning points
+            bool addPiToThetaZ = fnc.Lz!=0 && (
+                fnc.point.nudot!=0 ? fnc.point.nudot<0 :
+                fnc.point.nu   !=0 ? fnc.point.nu<0 : point.vz<0);
             *ang = computeAngles(derI, derS, addPiToThetaZ);
         }
     }
@@ -677,7 +682,7 @@ void evalAxisymStaeckel(
     const potential::OblatePerfectEllipsoid& potential, const coord::PosVelCyl& point,
     Actions* act, Angles* ang, Frequencies* freq)
 {
-    evalAxisym(findIntegralsOfMotionOblatePerfectEllipsoid(potential, point), act, ang, freq);
+    evalAxisym(findIntegralsOfMotionOblatePerfectEllipsoid(potential, point), point, act, ang, freq);
 }
 
 void evalAxisymFudge(
@@ -689,7 +694,7 @@ void evalAxisymFudge(
     if(focalDistance<=0)
         focalDistance = fmax(point.R, 1.) * 1e-4;   // this is a temporary workaround!
     evalAxisym(findIntegralsOfMotionAxisymFudge(potential, point, coord::ProlSph(focalDistance)),
-        act, ang, freq);
+        point, act, ang, freq);
 }
 
 
-- 
2.43.0

