From 24f5c5eb954a62b06c99db0cb44663d2f36a0a58 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:28:40 +0000
Subject: [PATCH 01/28] fix: normalise Phi(x,y,z) as assumed by the 2-loop
 threshold corrections

phi_xyz() sorted its arguments and multiplied by z*lambda^2/2, which made
the O(at^2), O(ab^2) and O(at*ab) thresholds scale like a squared mass for
non-degenerate spectra.  The expressions use the dimensionless
Davydychev/Tausk function Phi(x/z,y/z).
---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..ca4a21c 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -62,13 +62,6 @@ namespace {
       return x * std::log(x);
    }
 
-   void sort(double& x, double& y, double& z) noexcept
-   {
-      if (x > y) { std::swap(x, y); }
-      if (y > z) { std::swap(y, z); }
-      if (x > y) { std::swap(x, y); }
-   }
-
 } // anonymous namespace
 
 double F1(double x) noexcept
@@ -1398,9 +1391,8 @@ namespace {
  */
 double phi_xyz(double x, double y, double z) noexcept
 {
-   sort(x, y, z);
    const auto u = x/z, v = y/z;
-   return phi_uv(u,v)*z*lambda_2(u, v)/2;
+   return phi_uv(u,v);
 }
 
 } // namespace threshold_loop_functions
-- 
2.43.0


From 03acf30857ed810cd1639400bea8e678f931df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 02/28] fix: evaluate the stop logarithm of the O(at^2)
 threshold at the shifted mass

The general-mass expression is evaluated for slightly shifted stop and
Higgsino masses to avoid its poles at mQ3 = mu and mU3 = mu, but one
logarithm used the unshifted mQ3, so that the poles did not cancel.
---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index f26414e..bae0c15 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -1390,7 +1390,6 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
-   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
 
    if (is_equal_rel(mQ32, mU32, 0.1) &&
        (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
@@ -1400,6 +1399,7 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    mQ32 = p.mq2(2,2) * (1.02);
    mU32 = p.mu2(2,2) * (0.98);
    const double mQ3 = std::sqrt(mQ32);
+   const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double mU3 = std::sqrt(mU32);
    const double Mu = p.mu * std::sqrt(1.03);
    const double Mu2 = pow2(Mu);
-- 
2.43.0


From 21ccafe9d79f635c260831e4f5b5cac9ddc292bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/28] fix: an undefined error must not win the hierarchy
 selection

---
 source/himalaya/HierarchyCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..2c5597d 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -369,8 +369,11 @@ int HierarchyCalculator::compareHierarchies(himalaya::HierarchyObject& ho)
          // If the error is negative, it is the first iteration and
          // there is no hierarchy which fits better.  Otherwise,
          // compare the current error with the last error and choose
-         // the hierarchy which fits best (lowest error).
-         if (error < 0 || currError < error) {
+         // the hierarchy which fits best (lowest error).  An undefined
+         // error (NaN, e.g. from a tachyonic expanded Higgs mass) must
+         // not prevail over a defined one.
+         if (error < 0 || currError < error
+             || (std::isnan(error) && !std::isnan(currError))) {
             error = currError;
             suitableHierarchy = hierarchy;
             ho.setAbsDiff2L(twoLoopError);
-- 
2.43.0


From 7fccd3e5796b8bec359c99f618c646d34d843f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 04/28] fix: smallest eigenvalue must not be replaced by the
 other one if it is negative

---
 source/himalaya/HierarchyCalculator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 2c5597d..f88a561 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -51,9 +51,10 @@ namespace {
 double calcSmallestEigenvalue(const Eigen::Matrix2d& matrix)
 {
    Eigen::EigenSolver<Eigen::Matrix2d> solver(matrix, false);
-   const auto eigenvalues = solver.eigenvalues().real().cwiseSqrt();
 
-   return eigenvalues(0) < eigenvalues(1) ? eigenvalues(0) : eigenvalues(1);
+   // take the root of the smallest eigenvalue (NaN if it is negative),
+   // and never the root of the other one
+   return std::sqrt(solver.eigenvalues().real().minCoeff());
 }
 
 /// set flags to omit all corrections, except O(at*as^n)
-- 
2.43.0


From c1458336a74be49d90c3a5a0c0473d61c765adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 05/28] fix: average squark mass of the threshold corrections
 must be taken from the completed point

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index bae0c15..d13b517 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -134,10 +134,13 @@ using namespace threshold_loop_functions;
  */
 ThresholdCalculator::ThresholdCalculator(
    const Parameters& p_, bool verbose, bool check)
-   : p(p_), msq2(p.calculateMsq2())
+   : p(p_)
 {
    p.validate(verbose);
 
+   // requires the completed parameter point
+   msq2 = p.calculateMsq2();
+
    if (!check) {
       // Set mass limit for threshold corrections
       const double mQ3 = std::sqrt(p.mq2(2,2));
-- 
2.43.0


From 0ced284faa39f9f45c6ffb26f4e501cc59d1522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 06/28] fix: report the requested sector also if no 3-loop
 corrections are calculated

With loopOrder < 3 and bottom -> True the LibraryLink returned the rule
MstopMDRPrime -> {...} instead of MsbottomMDRPrime -> {...}.
---
 source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
index 178bb44..e04fb81 100644
--- a/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
+++ b/source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp
@@ -399,6 +399,9 @@ Results calculate_results(const Data& data)
       res.fo_dom =
          std::make_tuple(dmh2_fo_0l_at, dmh2_fo_1l_at, dmh2_fo_2l_at, dmh2_fo_3l_at);
    } else {
+      // no 3-loop corrections, but remember which sector is requested
+      res.ho = himalaya::HierarchyObject(data.bottom);
+
       // calculate fixed-order corrections for v^2 << MS^2
       himalaya::mh2_eft::Mh2EFTCalculator meft(data.pars);
       const auto dmh2_eft_0l = meft.getDeltaMh2EFT0Loop();
-- 
2.43.0


From e1151ae5fe6c5cd1e8c645d3c57336026898a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:08 +0000
Subject: [PATCH 07/28] fix: print the banner once even if calculators are
 constructed concurrently

The flag was an ordinary static bool, checked and set non-atomically: a data
race, and several threads could print the banner.
---
 source/himalaya/HierarchyCalculator.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index f88a561..6bf1eb0 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <numeric>
@@ -39,7 +40,7 @@
 
 namespace himalaya {
 
-static bool isInfoPrinted; ///< if true, no info will be printed
+static std::atomic<bool> isInfoPrinted{false}; ///< if true, no info will be printed
 
 namespace {
 
@@ -154,9 +155,8 @@ void printInfo()
 HierarchyCalculator::HierarchyCalculator(const Parameters& p_, bool verbose_)
    : p(p_), verbose(verbose_)
 {
-   if (!isInfoPrinted && verbose) {
+   if (verbose && !isInfoPrinted.exchange(true)) {
       printInfo();
-      isInfoPrinted = true;
    }
 
    p.validate(verbose);
-- 
2.43.0


From b1bd09fdc5f8d253d1b61f2ccf3707f2edab3e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:20 +0000
Subject: [PATCH 08/28] fix: 2-loop Yukawa threshold corrections at and near
 degenerate masses

The general expressions of O(yt^6, yb^6, yt^2 yb^4, yt^4 yb^2, ytau^6)
have removable poles for pairwise equal masses of the sfermions and the
higgsino, where NaN or arbitrarily large values were returned.  The
expressions for the fully degenerate limit of O(yb^6, yt^2 yb^4,
yt^4 yb^2, ytau^6) did not coincide with the limit of the general
expressions, and O(yt^6) was evaluated at shifted masses.  Extrapolate
the general expressions from well-separated masses instead.
---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 330 +++++++-----------
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  |  34 +-
 2 files changed, 154 insertions(+), 210 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index d13b517..17c36d8 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -14,9 +14,11 @@
 #include "himalaya/misc/Numerics.hpp"
 #include "himalaya/misc/Powers.hpp"
 #include "himalaya/misc/RAII.hpp"
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <limits>
+#include <numeric>
 #include <stdexcept>
 
 /**
@@ -31,52 +33,6 @@ namespace himalaya {
 namespace mh2_eft {
 namespace {
 
-/// threshold loop functions from [1504.05200] Eq.(14)
-double f1HD(double x) noexcept
-{
-   const double x2 = pow2(x);
-   const double den = 1 - x2;
-
-   if (std::abs(den) < 1e-5)
-      return -1;
-
-   return x2/den * std::log(x2);
-}
-
-/// threshold loop functions from [1504.05200] Eq.(15)
-double f2HD(double x) noexcept
-{
-   const double x2 = pow2(x);
-   const double den = 1 - x2;
-
-   if (std::abs(den) < 1e-5)
-      return 0.5;
-
-   return (1 + x2/den * std::log(x2))/den;
-}
-
-/// threshold loop functions from [1504.05200] Eq.(17)
-double f3HD(double x) noexcept
-{
-   using himalaya::dilog;
-
-   const double x2 = pow2(x);
-   const double den = 1 - x2;
-   const std::complex<double> cden = den;
-
-   if (std::abs(den) < 1e-5)
-      return -9./4;
-
-   const double logx2 = std::log(x2);
-
-   const std::complex<double> result =
-      (-1 + x2*(2 + 2*x2))/pow2(den) * (
-         logx2*std::log(cden) + dilog(x2) - z2 - x2*logx2);
-
-   return result.real();
-}
-
-
 /**
  * Checks if the difference of the shifted general mass case result to
  * the exact limit result is smaller than the difference of the
@@ -1093,19 +1049,11 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    const double Mu2 = pow2(Mu);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
+   const std::vector<Mass> masses{Mass::Q3, Mass::D3, Mass::Mu};
+   const auto shifts = calcShifts(masses, 0.02);
 
-   if (std::abs(mD3 - mQ3) < eps && std::abs(mA - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (30.*pow4(cbeta)*(Xb2*pow2(M)*(Xb2*(0.2 + 0.7*pow2(cbeta) - 0.1*pow2(
-        sbeta)) + 0.17495808000000004*Xb*Yb*pow2(sbeta) - 0.004229546666666551*
-        pow2(sbeta)*pow2(Yb)) + (Xb2*(-0.4 - 2.8*pow2(cbeta) + 
-        0.5375628799999999*pow2(sbeta)) + 0.10016767999999983*Xb*Yb*pow2(sbeta)
-        + 0.025041919999999957*pow2(sbeta)*pow2(Yb))*pow4(M) - 
-        0.0041457066666666705*pow2(sbeta)*pow2(Yb)*pow4(Xb) + (0.8 + pow2(
-        cbeta) - 0.6699863197821283*pow2(sbeta))*pow6(M) - 0.06666666666666667*
-        pow2(cbeta)*pow6(Xb)))/pow6(M);
-   }
+   if (!shifts.empty())
+      return extrapolate(&ThresholdCalculator::getDeltaLambdaYb6, masses, shifts, omitLogs);
 
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
         pow2(cbeta)) + (2*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (8*Mu2)/(mD32*
@@ -1321,93 +1269,36 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
         - Mu2)*pow2(cbeta)*pow2(mD32 - mQ32)*pow4(mD3))));
 }
 
-/**
- * 2-loop threshold correction to lambda O(at^2) from SUSYHD
- * [1504.05200] Eq.(21).
- *
- * @note Only valid for mQ3 = mU3!
- *
- * @note Multiplied by a factor 2 in order to match the convention of
- * LTM.
- *
- * @param omitLogs factor which multiplies the log(mst^2/Q^2) terms
- *
- * @return 2-loop threshold correction O(at^2)
- */
-double ThresholdCalculator::getDeltaLambdaYt6_SUSYHD(int omitLogs) const
-{
-   const double mQ32 = p.mq2(2,2);
-   const double mU32 = p.mu2(2,2);
-   const double mQ3 = std::sqrt(mQ32);
-   const double mU3 = std::sqrt(mU32);
-   const double Xt = calcXt();
-   const double mst2 = mQ3 * mU3;
-   const double mst = std::sqrt(mst2);
-   const double xt = Xt/mst;
-   const double muhat = p.mu/mst;
-   const double beta = calcBeta();
-   const double cb2 = pow2(calcCosBeta());
-   const double sb2 = pow2(calcSinBeta());
-   const double s2b = std::sin(2*beta);
-   const double Q2 = pow2(p.scale);
-   const double lmst2Q2 = omitLogs*std::log(mst2/Q2);
-
-   const double dlam =
-      (3*(0.5 - 8.34993159891064*cb2 - 4*lmst2Q2 + 13*cb2*lmst2Q2 +
-       12.*cb2*(0.04173653333333327 + lmst2Q2)*xt*((2*muhat)/s2b + xt) -
-       8*f1HD(muhat) + 4*f3HD(muhat) + 3*pow2(lmst2Q2) -
-       3*cb2*pow2(lmst2Q2) + 6*pow2(muhat) - 6*lmst2Q2*pow2(muhat) -
-       2*f1HD(muhat)*pow2(muhat) + 3*f2HD(muhat)*pow2(muhat) +
-       3.*cb2*(0.04173653333333327 + lmst2Q2)*pow2((2*muhat)/s2b + xt) +
-       pow2(xt)*(-7 + 19.6878144*cb2 + 27*lmst2Q2 - 24*cb2*lmst2Q2 +
-          4*f1HD(muhat) - 4*f2HD(muhat) - 6*pow2(muhat) +
-          6*lmst2Q2*pow2(muhat) - 6*f1HD(muhat)*pow2(muhat) -
-          6*f2HD(muhat)*pow2(muhat) -
-          3.*cb2*(0.007049244444444251 + lmst2Q2)*pow2((2*muhat)/s2b + xt))
-        - 2.*cb2*(-0.4373952000000001 + lmst2Q2)*((2*muhat)/s2b + xt)*
-        pow3(xt) + ((22 - 25*cb2 - 26*lmst2Q2 + 24*cb2*lmst2Q2 -
-            2*f1HD(muhat) + 2*f2HD(muhat) + 4*pow2(muhat) -
-            4*lmst2Q2*pow2(muhat) + 4*f1HD(muhat)*pow2(muhat) +
-            2*f2HD(muhat)*pow2(muhat) +
-            (2.*cb2*(-0.04145706666666671 + lmst2Q2)*
-               pow2(2.*muhat + s2b*xt))/pow2(s2b))*pow4(xt))/4. -
-       ((-1 + cb2)*(-1 + lmst2Q2)*pow6(xt))/2.))/sb2;
-
-   return 2*dlam;
-}
-
 double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
 {
    using std::log;
    using himalaya::dilog;
 
    const double MR2 = pow2(p.scale);
-   double mQ32 = p.mq2(2,2);
-   double mU32 = p.mu2(2,2);
+   const double mQ32 = p.mq2(2,2);
+   const double mU32 = p.mu2(2,2);
+   const double mQ3 = std::sqrt(mQ32);
+   const double mU3 = std::sqrt(mU32);
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
    const double Xt = calcXt();
    const double Yt = calcYt();
+   const double Mu = p.mu;
+   const double Mu2 = pow2(Mu);
    const double Xt2 = pow2(Xt);
    const double Xt4 = pow2(Xt2);
    const double Xt6 = pow3(Xt2);
    const double mA2 = pow2(mA);
-
-   if (is_equal_rel(mQ32, mU32, 0.1) &&
-       (is_equal_rel(mQ32, mA2, 0.1) || is_equal_rel(mU32, mA2, 0.1))) {
-      return getDeltaLambdaYt6_SUSYHD(omitLogs);
-   }
-
-   mQ32 = p.mq2(2,2) * (1.02);
-   mU32 = p.mu2(2,2) * (0.98);
-   const double mQ3 = std::sqrt(mQ32);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
-   const double mU3 = std::sqrt(mU32);
-   const double Mu = p.mu * std::sqrt(1.03);
-   const double Mu2 = pow2(Mu);
    const double lmUMR = omitLogs*std::log(Mu2 / MR2);
 
+   const std::vector<Mass> masses{Mass::Q3, Mass::U3, Mass::Mu};
+   const auto shifts = calcShifts(masses, 0.02);
+
+   if (!shifts.empty())
+      return extrapolate(&ThresholdCalculator::getDeltaLambdaYt6, masses, shifts, omitLogs);
+
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
         pow3(Xt))/(pow2(mQ32 - mU32)*pow2(sbeta)) - (6*Xt6*(11*mQ32*mU32 + 2*
         mQ32*mU32*dilog(1 - mQ32/mU32) - 4*mQ32*mU32*dilog(1 - mU32/mQ32) + 2*
@@ -1787,30 +1678,16 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    const double mA = p.MA;
    const double sbeta = calcSinBeta();
    const double cbeta = calcCosBeta();
-   const double sbe = sbeta;
-   const double cbe = cbeta;
    const double Xtau = calcXtau();
    const double Ytau = calcYtau();
    const double Mu = p.mu;
 
-   if (std::abs(mE3 - mL3) < 0.1*mE3) {
-     const double lMS = log(mL32/MR2);
-     const double M = mL3;
-     const double Xtau2 = pow2(Xtau);
-     return (pow2(cbe)*(cbe*(4.994969600000008 - 48.*lMS)*sbe*pow3(M)*pow3(Xtau)
-     + Xtau2*pow4(M)*(-0.1268863999999965 + pow2(cbe)*(lMS*(99. - 40.5*pow2(sbe))
-     + 25.88317440000001*pow2(sbe)) + (-96. + 6.75*lMS)*pow4(cbe) + lMS*(74.25
-     - 99.*pow2(sbe) + 6.75*pow4(sbe))) + pow2(M)*(-0.12437120000000013
-     + pow2(cbe)*(6.621856000000005*pow2(sbe) + lMS*(-22.5 + 4.5*pow2(sbe)))
-     + (39. - 0.75*lMS)*pow4(cbe) + lMS*(-18.75 + 22.5*pow2(sbe)
-     - 0.75*pow4(sbe)))*pow4(Xtau) + cbe*(4.507545599999993 + 108.*lMS)*sbe
-     *Xtau*pow5(M) + cbe*(-0.24874240000000025 + 6.*lMS)*M*sbe*pow5(Xtau)
-     + (0.7512575999999989 + pow2(cbe)*(3.9004104065361593*pow2(sbe)
-     + lMS*(-30. + 58.5*pow2(sbe))) + (54. - 9.75*lMS + 18.*pow2(lMS))
-     *pow4(cbe) + lMS*(-2.25 + 30.*pow2(sbe) - 9.75*pow4(sbe)))*pow6(M)
-     + (lMS*(1.5 - 1.5*pow2(sbe)) + pow2(cbe)*(1.5*lMS - 0.12437120000000013
-     *pow2(sbe)) - 3.*pow4(cbe))*pow6(Xtau)))/pow6(M);
-   }
+   const std::vector<Mass> masses{Mass::L3, Mass::E3, Mass::Mu};
+   const auto shifts = calcShifts(masses, 0.03);
+
+   if (!shifts.empty())
+      return extrapolate(&ThresholdCalculator::getDeltaLambdaYtau6, masses, shifts, omitLogs);
+
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
         pow2(mE3)*(pow2(mE3) - pow2(mL3))*pow2(mL3)*pow2(log(mE3)) - 4*pow2(
@@ -2215,36 +2092,11 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*log(mQ32 / MR2);
    const double lmUMR = omitLogs*log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
+   const std::vector<Mass> masses{Mass::Q3, Mass::U3, Mass::D3, Mass::Mu};
+   const auto shifts = calcShifts(masses, 0.02);
 
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mD3);
-     return (2.675765602178715*pow2(cbeta)*(cbeta*(1.4948992530373513*sbeta*pow3(M)*
-        pow3(Xb) - 8.96939551822411*sbeta*Xt*pow5(M)) + pow4(cbeta)*(Xb2*pow2(
-        M)*(-0.3737248132593378*Xb2 - 0.34273774426277803*Xb*Yt - 
-        0.514106616394167*pow2(Yt)) + (3.5039051224688698*Xb2 + 
-        5.046224971651371*Xb*Yt + 1.2615562429128429*pow2(Yt))*pow4(M) + 
-        0.05195844587770295*pow2(Yt)*pow4(Xb) + 1.*pow6(M)) + pow2(sbeta)*(-
-        0.20235594112794902*Xb2*Xt2*pow2(sbeta)*pow2(Yb) + pow2(M)*(
-        1.4948992530373513*Xb*Xt2*Yb*pow2(sbeta) + 0.7474496265186756*Xt2*pow2(
-        sbeta)*pow2(Yb) + Xb2*(1.1211744397780137*Xt2 + 1.4948992530373513*Xt*
-        Yb*pow2(sbeta) + 0.7474496265186756*pow2(sbeta)*pow2(Yb))) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb)*pow2(sbeta) - 
-        7.0078102449377395*Xt*Yb*pow2(sbeta) + Xb2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) + Xt2*(-2.2423488795560274 + 
-        1.2615562429128426*pow2(sbeta)) - 3.5039051224688698*pow2(sbeta)*pow2(
-        Yb))*pow4(M) + (-17.93879103644822 - 10.511715367406609*pow2(sbeta))*
-        pow6(M)) + pow2(cbeta)*(Xt*(0.7474496265186756*Xb*Xt - 
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xb) + Xb*pow2(M)*(Xb2*(-
-        0.342737744262778*Yb - 0.34273774426277803*Yt)*pow2(sbeta) + 
-        2.9897985060747025*Xt*Yb*Yt*pow2(sbeta) + Xb*Xt*(-6.727046638668082*Xt
-        + 1.4948992530373513*Yb + 1.4948992530373513*Yt)*pow2(sbeta) + (
-        0.3737248132593378 + 0.3737248132593378*pow2(sbeta))*pow3(Xb)) + (-
-        8.407868305684794*Xb2 + Xt*(8.96939551822411*Xt - 7.0078102449377395*Yb
-        - 7.0078102449377395*Yt) + Xb*(-7.0078102449377395*Xt + 
-        5.0462249716513705*Yb + 5.0462249716513705*Yt))*pow2(sbeta)*pow4(M) + (
-        8.969395518224111 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
-   }
+   if (!shifts.empty())
+      return extrapolate(&ThresholdCalculator::getDeltaLambdaYt2Yb4, masses, shifts, omitLogs);
 
    return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
         mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
@@ -2616,35 +2468,11 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    const double Xb2 = pow2(Xb);
    const double lmQ3MR = omitLogs*std::log(mQ32 / MR2);
    const double lmUMR  = omitLogs*std::log(Mu2 / MR2);
-   const double eps = mQ3*0.01;
+   const std::vector<Mass> masses{Mass::Q3, Mass::U3, Mass::D3, Mass::Mu};
+   const auto shifts = calcShifts(masses, 0.02);
 
-   if (std::abs(mU3 - mQ3) < eps && std::abs(mD3 - mQ3) < eps && std::abs(Mu - mQ3) < eps) {
-     const double M = std::sqrt(mQ3*mU3);
-     return (2.675765602178715*pow2(sbeta)*(cbeta*M*sbeta*(-0.7474496265186756*Xb*Xt4
-        + (8.96939551822411*Xb + 1.4948992530373513*Xt)*Xt2*pow2(M) - 
-        8.96939551822411*Xb*pow4(M)) + pow4(cbeta)*(Yt*(1.4948992530373513*Xb*
-        Xt2 + Xb2*(1.4948992530373513*Xt + 0.7474496265186756*Yt) + 
-        0.7474496265186756*Xt2*Yt)*pow2(M) - 0.20235594112794902*Xb2*Xt2*pow2(
-        Yt) + (1.2615562429128426*Xb2 - 7.0078102449377395*Xb*Xt + 
-        1.2615562429128426*Xt2 - 7.0078102449377395*Xb*Yt - 7.0078102449377395*
-        Xt*Yt - 3.5039051224688698*pow2(Yt))*pow4(M) - 10.511715367406609*pow6(
-        M)) + pow2(sbeta)*(0.05195844587770295*Xt4*pow2(sbeta)*pow2(Yb) + Xt2*
-        pow2(M)*(Xt2*(0.3737248132593378 - 0.560587219889007*pow2(sbeta)) - 
-        0.342737744262778*Xt*Yb*pow2(sbeta) - 0.514106616394167*pow2(sbeta)*
-        pow2(Yb)) + pow2(sbeta)*(5.746254002024897*Xt2 + 5.046224971651371*Xt*
-        Yb + 1.2615562429128429*pow2(Yb))*pow4(M) + (8.969395518224111 + 1.*
-        pow2(sbeta))*pow6(M)) + pow2(cbeta)*(Xt*pow2(M)*(Xb2*Xt*(
-        1.1211744397780137 - 2.2423488795560274*pow2(sbeta)) + Xt2*(-
-        1.1211744397780137*Xt - 0.342737744262778*Yb - 0.342737744262778*Yt)*
-        pow2(sbeta) + Xb*(1.4948992530373513*Xt*Yb + 1.4948992530373513*Xt*Yt +
-        2.9897985060747025*Yb*Yt)*pow2(sbeta)) + Xb*(0.3737248132593378*Xb*Xt -
-        0.6125456657667098*Yb*Yt)*pow2(sbeta)*pow3(Xt) + (Xb*(-
-        7.0078102449377395*Xt - 7.0078102449377395*Yb - 7.0078102449377395*Yt)*
-        pow2(sbeta) + Xb2*(-2.2423488795560274 + 8.96939551822411*pow2(sbeta))
-        + Xt*((5.0462249716513705*Yb + 5.0462249716513705*Yt)*pow2(sbeta) + Xt*
-        (-2.2423488795560274 + 9.530922730763425*pow2(sbeta))))*pow4(M) + (-
-        17.93879103644822 + 6.242348879556027*pow2(sbeta))*pow6(M))))/pow6(M);
-   }
+   if (!shifts.empty())
+      return extrapolate(&ThresholdCalculator::getDeltaLambdaYt4Yb2, masses, shifts, omitLogs);
 
    return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
@@ -5958,6 +5786,100 @@ void ThresholdCalculator::setXtOrderOfDeltaLambdaAtAs2(int xtOrder)
    xtOrderLambdaAtAs2 = xtOrder;
 }
 
+double ThresholdCalculator::calcMass(Mass mass) const
+{
+   switch (mass) {
+      case Mass::Q3: return std::sqrt(p.mq2(2,2));
+      case Mass::U3: return std::sqrt(p.mu2(2,2));
+      case Mass::D3: return std::sqrt(p.md2(2,2));
+      case Mass::L3: return std::sqrt(p.ml2(2,2));
+      case Mass::E3: return std::sqrt(p.me2(2,2));
+      case Mass::Mu: return std::abs(p.mu);
+   }
+
+   throw std::runtime_error("Mass not included!");
+}
+
+void ThresholdCalculator::scaleMass(Mass mass, double factor)
+{
+   switch (mass) {
+      case Mass::Q3: p.mq2(2,2) *= pow2(factor); break;
+      case Mass::U3: p.mu2(2,2) *= pow2(factor); break;
+      case Mass::D3: p.md2(2,2) *= pow2(factor); break;
+      case Mass::L3: p.ml2(2,2) *= pow2(factor); break;
+      case Mass::E3: p.me2(2,2) *= pow2(factor); break;
+      case Mass::Mu: {
+         const double delta = p.mu*(factor - 1);
+         p.mu += delta;
+         p.Au(2,2) += delta/calcTanBeta();
+         p.Ad(2,2) += delta*calcTanBeta();
+         p.Ae(2,2) += delta*calcTanBeta();
+      }
+      break;
+   }
+}
+
+std::vector<double> ThresholdCalculator::calcShifts(const std::vector<Mass>& masses, double distance) const
+{
+   const double eps = 0.01;
+   const std::size_t n = masses.size();
+
+   if (isShifted)
+      return {};
+
+   std::vector<std::size_t> idx(n);
+   std::iota(idx.begin(), idx.end(), 0);
+   std::stable_sort(idx.begin(), idx.end(), [&](std::size_t i, std::size_t k) {
+      return calcMass(masses[i]) < calcMass(masses[k]);
+   });
+
+   const auto areCloserThan = [&](std::size_t i, double eps) {
+      const double lower = calcMass(masses[idx[i-1]]);
+      const double upper = calcMass(masses[idx[i]]);
+      return upper - lower < eps*upper;
+   };
+
+   std::vector<double> shifts(n, 0.);
+   bool isDegenerate = false;
+
+   for (std::size_t i = 1; i < n; i++) {
+      isDegenerate = isDegenerate || areCloserThan(i, eps);
+      shifts[idx[i]] = shifts[idx[i-1]] + (areCloserThan(i, 4*eps) ? 1. : 0.);
+   }
+
+   if (!isDegenerate)
+      return {};
+
+   const double max = shifts[idx[n-1]];
+
+   for (auto& s: shifts)
+      s = distance*(s - 0.5*max);
+
+   return shifts;
+}
+
+double ThresholdCalculator::extrapolate(
+   double (ThresholdCalculator::*correction)(int) const,
+   const std::vector<Mass>& masses,
+   const std::vector<double>& shifts, int omitLogs) const
+{
+   // coefficients to extrapolate a polynomial of 4th degree
+   const double coeffs[] = { 5., -10., 10., -5., 1. };
+   double result = 0.;
+
+   for (int k = 1; k <= 5; k++) {
+      ThresholdCalculator shifted(*this);
+      shifted.isShifted = true;
+
+      for (std::size_t i = 0; i < masses.size(); i++)
+         shifted.scaleMass(masses[i], 1 + k*shifts[i]);
+
+      result += coeffs[k-1]*(shifted.*correction)(omitLogs);
+   }
+
+   return result;
+}
+
 double ThresholdCalculator::calcBeta() const
 {
    return std::atan(calcTanBeta());
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index 6bd3eea..e352acd 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -9,6 +9,7 @@
 
 #include "himalaya/Himalaya_interface.hpp"
 #include "himalaya/mh2_eft/EFTFlags.hpp"
+#include <vector>
 
 /**
  * @file ThresholdCalculator.hpp
@@ -306,12 +307,6 @@ private:
     * @return delta_lambda_yt6
     */
    double getDeltaLambdaYt6(int omitLogs) const;
-   /**
-    * Returns delta_lambda_yt6 from SUSYHD
-    * @param omitLogs an integer key to omit all mu terms
-    * @return delta_lambda_yt6
-    */
-   double getDeltaLambdaYt6_SUSYHD(int omitLogs) const;
    /**
     * Returns delta_lambda_ytau6
     * @param omitLogs an integer key to omit all mu terms
@@ -342,6 +337,32 @@ private:
     * @return delta_lambda_ytau2_yb4
     */
    double getDeltaLambdaYtau2Yb4(int omitLogs) const;
+   /// masses on which the 2-loop Yukawa corrections depend
+   enum class Mass { Q3, U3, D3, L3, E3, Mu };
+   /**
+    * Returns relative shifts of the given masses, which move nearly
+    * degenerate masses apart from each other
+    * @param masses masses to be moved apart
+    * @param distance relative distance between two shifted masses
+    * @return shifts, empty if the masses are sufficiently separated
+    */
+   std::vector<double> calcShifts(const std::vector<Mass>& masses, double distance) const;
+   /**
+    * Extrapolates a threshold correction to a point with (nearly)
+    * degenerate masses, where its general expression is unstable
+    * @param correction threshold correction
+    * @param masses masses to be shifted
+    * @param shifts relative shifts of the masses
+    * @param omitLogs an integer key to omit all mu terms
+    * @return threshold correction for vanishing shifts
+    */
+   double extrapolate(double (ThresholdCalculator::*correction)(int) const,
+                      const std::vector<Mass>& masses,
+                      const std::vector<double>& shifts, int omitLogs) const;
+   /// calculate the absolute value of the given mass
+   double calcMass(Mass) const;
+   /// multiply the given mass by a factor (with fixed Xt, Xb and Xtau)
+   void scaleMass(Mass, double);
    /// calculate beta
    double calcBeta() const;
    /// calculate tan(beta)
@@ -367,6 +388,7 @@ private:
    /// calculate Ytau
    double calcYtau() const;
    Parameters p{}; ///< Himalaya input parameters
+   bool isShifted = false; ///< true if masses have been moved apart
    double msq2{};  ///< average squared squark mass of the first two generations
    int xtOrderLambdaAtAs2 = 6; ///< flag to truncate the Xt order of delta_lambda_at_as2 at a given power starting at 4
 };
-- 
2.43.0


From f3621a4313fd9360da9877766c32df961f62722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:28 +0000
Subject: [PATCH 09/28] fix: use the general threshold expressions near
 degenerate masses only if they are precise

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 53 +++++++++++++++++--
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  |  6 +++
 2 files changed, 54 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 17c36d8..b1f8316 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -15,7 +15,9 @@
 #include "himalaya/misc/Powers.hpp"
 #include "himalaya/misc/RAII.hpp"
 #include <algorithm>
+#include <array>
 #include <cmath>
+#include <cstddef>
 #include <complex>
 #include <limits>
 #include <numeric>
@@ -111,6 +113,8 @@ ThresholdCalculator::ThresholdCalculator(
       const double shifted_msq2 = pow2(mQ3 + std::abs(std::sqrt(msq2) - mQ3)/2);
       const double shifted_m3   = mQ3 + std::abs(m3 - mQ3)/2;
 
+      const bool isPrecise = isGeneralPrecise();
+
       if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps &&
           std::abs(m3 - std::sqrt(msq2)) < eps) {
          const double lim = pref * getDeltaYtAlphas2(Limits::DEGENERATE, 1);
@@ -119,7 +123,7 @@ ThresholdCalculator::ThresholdCalculator(
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const Temporarily_set<double> tmp_set_msq2(msq2, shifted_msq2);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!isGeneralStable(exact, exactShifted, lim) || !isPrecise)
             p.massLimit3LThreshold = static_cast<int>(Limits::DEGENERATE);
       } else if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps) {
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3_EQ_M3, 1);
@@ -127,7 +131,7 @@ ThresholdCalculator::ThresholdCalculator(
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!isGeneralStable(exact, exactShifted, lim) || !isPrecise)
             p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_MU3_EQ_M3);
       } else if (std::abs(mQ3 - mU3) < eps) {
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3, 1);
@@ -135,7 +139,7 @@ ThresholdCalculator::ThresholdCalculator(
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!isGeneralStable(exact, exactShifted, lim) || !isPrecise)
             p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_MU3);
       } else if (std::abs(mQ3 - m3) < eps) {
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_M3, 1);
@@ -143,7 +147,7 @@ ThresholdCalculator::ThresholdCalculator(
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!isGeneralStable(exact, exactShifted, lim) || !isPrecise)
             p.massLimit3LThreshold = static_cast<int>(Limits::MQ3_EQ_M3);
       } else if (std::abs(mU3 - m3) < eps2) {
          const double lim = pref*getDeltaYtAlphas2(Limits::MU3_EQ_M3, 1);
@@ -151,12 +155,51 @@ ThresholdCalculator::ThresholdCalculator(
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
          const Temporarily_set<double> tmp_set_m3(p.MG, shifted_m3);
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
-         if (!isGeneralStable(exact, exactShifted, lim))
+         if (!isGeneralStable(exact, exactShifted, lim) || !isPrecise)
             p.massLimit3LThreshold = static_cast<int>(Limits::MU3_EQ_M3);
       }
    }
 }
 
+/**
+ * Checks if the corrections evaluated with the expressions for general
+ * masses are insensitive to changes of the masses at the level of the
+ * rounding errors.
+ *
+ * @return true if the expressions for general masses are precise
+ */
+bool ThresholdCalculator::isGeneralPrecise()
+{
+   const auto calculate = [this] {
+      return std::array<double, 6>{{
+         getDeltaYtAlphas(Limits::GENERAL, 1),
+         getDeltaYtAlphas2(Limits::GENERAL, 1),
+         getDeltaLambdaAlphat(Limits::GENERAL, 1),
+         getDeltaLambdaAlphatAlphas(Limits::GENERAL, 1),
+         getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1),
+         getDeltaVevYt2(Limits::GENERAL)
+      }};
+   };
+
+   const auto exact = calculate();
+
+   for (const double shift : {-1e-14, 1e-14}) {
+      const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), p.mu2(2,2)*(1 + shift));
+      const Temporarily_set<double> tmp_set_m3(p.MG, p.MG*(1 - shift));
+      const Temporarily_set<double> tmp_set_msq2(msq2, msq2*(1 - 3*shift));
+
+      const auto shifted = calculate();
+
+      for (std::size_t i = 0; i < exact.size(); i++) {
+         // also catches NaN
+         if (!(std::abs(exact[i] - shifted[i]) <= 1e-3*std::abs(exact[i])))
+            return false;
+      }
+   }
+
+   return true;
+}
+
 /**
  * Returns a specific threshold correction
  * @param couplingOrder coupling order of threshold correction
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index e352acd..f147229 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -69,6 +69,12 @@ public:
     */
    void setXtOrderOfDeltaLambdaAtAs2(int xtOrder);
 private:
+   /**
+    * Checks if the corrections evaluated with the expressions for
+    * general masses are insensitive to rounding errors
+    * @return true if the expressions for general masses are precise
+    */
+   bool isGeneralPrecise();
    /**
     * Returns delta g3_as in the MSbar scheme for a given mass limit
     * @param omitLogs an integer key to omit all mu terms
-- 
2.43.0


From 8656aad0a642d50b9ea2b1095fd85848f4e2e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:41 +0000
Subject: [PATCH 10/28] fix: threshold corrections if the gluino is degenerate
 with one of two nearly degenerate stops

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index b1f8316..cb8238c 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -115,7 +115,10 @@ ThresholdCalculator::ThresholdCalculator(
 
       const bool isPrecise = isGeneralPrecise();
 
-      if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps &&
+      // the gluino may be close to only one of two stops with nearly equal masses
+      const bool is_m3_close = std::abs(mU3 - m3) < eps || std::abs(mQ3 - m3) < eps;
+
+      if (std::abs(mQ3 - mU3) < eps && is_m3_close &&
           std::abs(m3 - std::sqrt(msq2)) < eps) {
          const double lim = pref * getDeltaYtAlphas2(Limits::DEGENERATE, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
@@ -125,7 +128,7 @@ ThresholdCalculator::ThresholdCalculator(
          const double exactShifted = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          if (!isGeneralStable(exact, exactShifted, lim) || !isPrecise)
             p.massLimit3LThreshold = static_cast<int>(Limits::DEGENERATE);
-      } else if (std::abs(mQ3 - mU3) < eps && std::abs(mU3 - m3) < eps) {
+      } else if (std::abs(mQ3 - mU3) < eps && is_m3_close) {
          const double lim = pref*getDeltaYtAlphas2(Limits::MQ3_EQ_MU3_EQ_M3, 1);
          const double exact = pref*getDeltaYtAlphas2(Limits::GENERAL, 1);
          const Temporarily_set<double> tmp_set_mU32(p.mu2(2,2), shifted_mU32);
-- 
2.43.0


From 5eac17b79a51f9704e873f0926a72264671102e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 11/28] fix: loop functions f5, ..., f8 for M1 = -mu or M2 =
 -mu

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 78 ++++++++++++++++++-
 1 file changed, 77 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index ca4a21c..297c80d 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -547,6 +547,34 @@ double f4(double r) noexcept
    return 2*(5*r4 + 25*r2 + 6)/(7*d2) + 2*(r4 - 19*r2 - 18)*r2*std::log(r2)/(7*d3);
 }
 
+/**
+ * Interpolates f(r1,r2) with r1 -> 1 around r2 = -1, where the
+ * expressions for r1 -> 1 have a removable singularity.
+ *
+ * @param f expression for r1 -> 1
+ * @param r1 first argument, r1 -> 1
+ * @param r2 second argument, r2 -> -1
+ *
+ * @return f(r1,r2)
+ */
+static double interpolate_r2_m1(double (*f)(double, double), double r1, double r2) noexcept
+{
+   constexpr int n = 6;
+   constexpr double nodes[n] = { -1.045, -1.03, -1.015, -0.985, -0.97, -0.955 };
+   double result = 0.;
+
+   for (int i = 0; i < n; i++) {
+      double weight = 1.;
+      for (int k = 0; k < n; k++) {
+         if (k != i)
+            weight *= (r2 - nodes[k])/(nodes[i] - nodes[k]);
+      }
+      result += weight*f(r1, nodes[i]);
+   }
+
+   return result;
+}
+
 /// f5(r1,r2) in the limit r1 -> 0, r2 -> 0
 static double f5_0_0(double r1, double r2) noexcept
 {
@@ -597,6 +625,10 @@ static double f5_1_1(double r1, double r2) noexcept
 /// f5(r1,r2) in the limit r1 -> 1, r2 != 1
 static double f5_1_r2(double r1, double r2) noexcept
 {
+   if (is_equal(r2, -1., 0.01)) {
+      return interpolate_r2_m1(f5_1_r2, r1, r2);
+   }
+
    if (is_zero(r2, 0.01)) {
       const double d = r1 - 1;
       return 0.75*(1 + d*(1./3. + d/6. + r2/3.));
@@ -688,6 +720,14 @@ double f5(double r1, double r2) noexcept
       return f5_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f5_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f5_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f5_0_r2(r1, r2);
    }
@@ -762,6 +802,10 @@ static double f6_0_1(double r1, double r2) noexcept
 /// f6(r1,r2) in the limit r1 -> 1
 static double f6_1_r2(double r1, double r2) noexcept
 {
+   if (is_equal(r2, -1., 0.01)) {
+      return interpolate_r2_m1(f6_1_r2, r1, r2);
+   }
+
    if (is_zero(r2, 1e-4)) {
       return f6_0_1(r2, r1);
    }
@@ -854,6 +898,14 @@ double f6(double r1, double r2) noexcept
       return f6_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., 0.001)) {
+      return f6_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., 0.001)) {
+      return f6_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f6_0_r2(r1, r2);
    }
@@ -928,6 +980,10 @@ static double f7_0_1(double r1, double r2) noexcept
 /// f7(r1,r2) in the limit r1 -> 1
 static double f7_1_r2(double r1, double r2) noexcept
 {
+   if (is_equal(r2, -1., 0.01)) {
+      return interpolate_r2_m1(f7_1_r2, r1, r2);
+   }
+
    if (is_zero(r2, 0.0001)) {
       return f7_0_1(r2, r1);
    }
@@ -1025,6 +1081,14 @@ double f7(double r1, double r2) noexcept
       return f7_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return f7_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return f7_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f7_0_r2(r1, r2);
    }
@@ -1108,6 +1172,10 @@ static double f8_0_1(double r1, double r2) noexcept
 /// f8(r1,r2) in the limit r1 -> 1
 static double f8_1_r2(double r1, double r2) noexcept
 {
+   if (is_equal(r2, -1., 0.01)) {
+      return interpolate_r2_m1(f8_1_r2, r1, r2);
+   }
+
    if (is_zero(r2, 1e-4)) {
       return f8_0_1(r2, r1);
    }
@@ -1190,7 +1258,7 @@ double f8(double r1, double r2) noexcept
    }
 
    if (is_equal(r1, -1., eps_one) && is_equal(r2, -1., eps_one)) {
-      return -1.;
+      return -f8_1_1(-r1, -r2);
    }
 
    if (is_equal(r1, 1., eps_one)) {
@@ -1201,6 +1269,14 @@ double f8(double r1, double r2) noexcept
       return f8_1_r2(r2, r1);
    }
 
+   if (is_equal(r1, -1., eps_one)) {
+      return -f8_1_r2(-r1, -r2);
+   }
+
+   if (is_equal(r2, -1., eps_one)) {
+      return -f8_1_r2(-r2, -r1);
+   }
+
    if (is_zero(r1, eps_zero)) {
       return f8_0_r2(r1, r2);
    }
-- 
2.43.0


From 4cdcb26f675988236981292675e30b9976fa2bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:36 +0000
Subject: [PATCH 12/28] fix: 2-loop Yukawa threshold corrections if MA is the
 sum or difference of two sfermion masses

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 72 ++++++++++++++++++-
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  | 26 +++++++
 2 files changed, 97 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index cb8238c..ae082ed 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -17,8 +17,9 @@
 #include <algorithm>
 #include <array>
 #include <cmath>
-#include <cstddef>
 #include <complex>
+#include <cstddef>
+#include <iterator>
 #include <limits>
 #include <numeric>
 #include <stdexcept>
@@ -1101,6 +1102,9 @@ double ThresholdCalculator::getDeltaLambdaYb6(int omitLogs) const
    if (!shifts.empty())
       return extrapolate(&ThresholdCalculator::getDeltaLambdaYb6, masses, shifts, omitLogs);
 
+   if (isMAAtThreshold(masses))
+      return interpolateMA(&ThresholdCalculator::getDeltaLambdaYb6, masses, omitLogs);
+
    return 3*(10 - 5/pow2(cbeta) - (2*mD32)/(mQ32*pow2(cbeta)) - (4*mQ32)/(mD32*
         pow2(cbeta)) + (2*mD32)/((mD32 - Mu2)*pow2(cbeta)) + (8*Mu2)/(mD32*
         pow2(cbeta)) + (4*Mu2)/(mQ32*pow2(cbeta)) + (4*Mu2)/((mQ32 - Mu2)*pow2(
@@ -1345,6 +1349,9 @@ double ThresholdCalculator::getDeltaLambdaYt6(int omitLogs) const
    if (!shifts.empty())
       return extrapolate(&ThresholdCalculator::getDeltaLambdaYt6, masses, shifts, omitLogs);
 
+   if (isMAAtThreshold(masses))
+      return interpolateMA(&ThresholdCalculator::getDeltaLambdaYt6, masses, omitLogs);
+
    return (18*pow2(cbeta)*pow2(log(mA2/MR2)))/pow2(sbeta) - (288*Yt*pow2(cbeta)*
         pow3(Xt))/(pow2(mQ32 - mU32)*pow2(sbeta)) - (6*Xt6*(11*mQ32*mU32 + 2*
         mQ32*mU32*dilog(1 - mQ32/mU32) - 4*mQ32*mU32*dilog(1 - mU32/mQ32) + 2*
@@ -1734,6 +1741,9 @@ double ThresholdCalculator::getDeltaLambdaYtau6(int omitLogs) const
    if (!shifts.empty())
       return extrapolate(&ThresholdCalculator::getDeltaLambdaYtau6, masses, shifts, omitLogs);
 
+   if (isMAAtThreshold(masses))
+      return interpolateMA(&ThresholdCalculator::getDeltaLambdaYtau6, masses, omitLogs);
+
    return 2*(5 + lMR*(10 - 8*log(mE3)) - 8*log(mE3) - 12*(1 + lMR)*log(mL3) + 5*
         pow2(lMR) + 8*pow2(log(mE3)) + 12*pow2(log(mL3)) - (pow2(Xtau)*(-36*
         pow2(mE3)*(pow2(mE3) - pow2(mL3))*pow2(mL3)*pow2(log(mE3)) - 4*pow2(
@@ -2144,6 +2154,9 @@ double ThresholdCalculator::getDeltaLambdaYt2Yb4(int omitLogs) const
    if (!shifts.empty())
       return extrapolate(&ThresholdCalculator::getDeltaLambdaYt2Yb4, masses, shifts, omitLogs);
 
+   if (isMAAtThreshold(masses))
+      return interpolateMA(&ThresholdCalculator::getDeltaLambdaYt2Yb4, masses, omitLogs);
+
    return -6 + (48*Xb*std::abs(Mu)*(dilog(1 - Mu2/mD32) - dilog(1 - Mu2/mQ32)))/(cbeta*(
         mD32 - mQ32)*sbeta) + (48*Xt*std::abs(Mu)*((mQ32 + Mu2)*(Mu2 - mU32)*dilog(1
         - Mu2/mQ32) + (mQ32 - Mu2)*(Mu2 + mU32)*dilog(1 - Mu2/mU32)))/(cbeta*(-
@@ -2520,6 +2533,9 @@ double ThresholdCalculator::getDeltaLambdaYt4Yb2(int omitLogs) const
    if (!shifts.empty())
       return extrapolate(&ThresholdCalculator::getDeltaLambdaYt4Yb2, masses, shifts, omitLogs);
 
+   if (isMAAtThreshold(masses))
+      return interpolateMA(&ThresholdCalculator::getDeltaLambdaYt4Yb2, masses, omitLogs);
+
    return -4 + (48*Xb*std::abs(Mu)*((mD32 + Mu2)*(-mQ32 + Mu2)*dilog(1 - Mu2/mD32) + (
         mD32 - Mu2)*(mQ32 + Mu2)*dilog(1 - Mu2/mQ32)))/(cbeta*(mD32 - mQ32)*(
         mD32 - Mu2)*(mQ32 - Mu2)*sbeta) + (48*Xt*std::abs(Mu)*(dilog(1 - Mu2/mQ32) -
@@ -5865,6 +5881,60 @@ void ThresholdCalculator::scaleMass(Mass mass, double factor)
    }
 }
 
+double ThresholdCalculator::calcDistanceToThreshold(const std::vector<Mass>& masses) const
+{
+   double distance = std::numeric_limits<double>::max();
+
+   for (std::size_t i = 0; i < masses.size(); i++) {
+      for (std::size_t k = i; k < masses.size(); k++) {
+         if (masses[i] == Mass::Mu || masses[k] == Mass::Mu)
+            continue;
+
+         const double sum = calcMass(masses[i]) + calcMass(masses[k]);
+         const double diff = std::abs(calcMass(masses[i]) - calcMass(masses[k]));
+
+         distance = std::min(distance, std::abs(p.MA - sum)/p.MA);
+
+         if (i != k)
+            distance = std::min(distance, std::abs(p.MA - diff)/p.MA);
+      }
+   }
+
+   return distance;
+}
+
+bool ThresholdCalculator::isMAAtThreshold(const std::vector<Mass>& masses) const
+{
+   return !isMAShifted && calcDistanceToThreshold(masses) < 1e-4;
+}
+
+double ThresholdCalculator::interpolateMA(
+   double (ThresholdCalculator::*correction)(int) const,
+   const std::vector<Mass>& masses, int omitLogs) const
+{
+   const auto shiftMA = [this] (double shift) {
+      ThresholdCalculator shifted(*this);
+      shifted.isMAShifted = true;
+      shifted.p.MA *= 1 + shift;
+      return shifted;
+   };
+
+   // choose points which are not at a threshold
+   const double steps[] = { 0.01, 0.0091, 0.0083, 0.0077, 0.0071, 0.0067 };
+   const double* step = std::find_if(std::begin(steps), std::end(steps) - 1, [&] (double h) {
+      return shiftMA(-2*h).calcDistanceToThreshold(masses) > 2e-4
+         && shiftMA(-h).calcDistanceToThreshold(masses) > 2e-4
+         && shiftMA(h).calcDistanceToThreshold(masses) > 2e-4
+         && shiftMA(2*h).calcDistanceToThreshold(masses) > 2e-4;
+   });
+   const double h = *step;
+
+   return (
+      + 4*((shiftMA(h).*correction)(omitLogs) + (shiftMA(-h).*correction)(omitLogs))
+      - (shiftMA(2*h).*correction)(omitLogs) - (shiftMA(-2*h).*correction)(omitLogs)
+   )/6;
+}
+
 std::vector<double> ThresholdCalculator::calcShifts(const std::vector<Mass>& masses, double distance) const
 {
    const double eps = 0.01;
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index f147229..86fc494 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -345,6 +345,31 @@ private:
    double getDeltaLambdaYtau2Yb4(int omitLogs) const;
    /// masses on which the 2-loop Yukawa corrections depend
    enum class Mass { Q3, U3, D3, L3, E3, Mu };
+   /**
+    * Returns the distance of MA to the closest sum or difference of two
+    * of the given sfermion masses
+    * @param masses masses of sfermions and of the higgsino
+    * @return distance relative to MA
+    */
+   double calcDistanceToThreshold(const std::vector<Mass>& masses) const;
+   /**
+    * Checks if MA is equal to the sum or difference of two of the given
+    * sfermion masses, where the general expressions of the 2-loop Yukawa
+    * corrections have removable singularities
+    * @param masses masses of sfermions and of the higgsino
+    * @return true if MA is at a threshold
+    */
+   bool isMAAtThreshold(const std::vector<Mass>& masses) const;
+   /**
+    * Interpolates a threshold correction in MA
+    * @param correction threshold correction
+    * @param masses masses of sfermions and of the higgsino
+    * @param omitLogs an integer to omit all log mu terms
+    * @return interpolated threshold correction
+    */
+   double interpolateMA(
+      double (ThresholdCalculator::*correction)(int) const,
+      const std::vector<Mass>& masses, int omitLogs) const;
    /**
     * Returns relative shifts of the given masses, which move nearly
     * degenerate masses apart from each other
@@ -395,6 +420,7 @@ private:
    double calcYtau() const;
    Parameters p{}; ///< Himalaya input parameters
    bool isShifted = false; ///< true if masses have been moved apart
+   bool isMAShifted = false; ///< true if MA has been moved away from a threshold
    double msq2{};  ///< average squared squark mass of the first two generations
    int xtOrderLambdaAtAs2 = 6; ///< flag to truncate the Xt order of delta_lambda_at_as2 at a given power starting at 4
 };
-- 
2.43.0


From b60e1100b4fd4a6bdb8c7b0c611974c055e6810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 13/28] fix: loop functions f5 and f6 for small zero or
 negative arguments

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 297c80d..96905c1 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -588,8 +588,8 @@ static double f5_0_0(double r1, double r2) noexcept
 
    const double r12 = sqr(r1);
    const double r22 = sqr(r2);
-   const double r2lr2 = xlogx(r2);
-   const double lr2 = logx(r2);
+   const double lr2 = 0.5*std::log(r22); // r2 may be negative
+   const double r2lr2 = r2*lr2;
 
    // expansion of f5 in
    //   r1 up to (including) r1^2
@@ -758,6 +758,10 @@ static double f6_0_0(double r1, double r2) noexcept
       return 0.;
    }
 
+   if (std::abs(r1) > std::abs(r2)) {
+      std::swap(r1, r2);
+   }
+
    const double r22 = sqr(r2);
    const double lr22 = std::log(r22);
 
-- 
2.43.0


From 4e1c95a9b4ff42d44b451e4d9efbebc4cb9a0e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:53 +0000
Subject: [PATCH 14/28] fix: YT_AS2 and the DRbar'-MSbar conversion if the
 average squark is degenerate with the gluino and one stop

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 43 +++++++++++++++++++
 .../himalaya/mh2_eft/ThresholdCalculator.hpp  | 24 +++++++++++
 2 files changed, 67 insertions(+)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index ae082ed..6b9e595 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -3076,6 +3076,12 @@ double ThresholdCalculator::getDeltaYtAlphas2(Limits limit, int omitLogs) const
    using std::log;
    using himalaya::dilog;
 
+   if (isMsq2AtPole(limit)) {
+      return interpolateMsq2(limit, [limit, omitLogs] (const ThresholdCalculator& tc) {
+         return tc.getDeltaYtAlphas2(limit, omitLogs);
+      });
+   }
+
    const double Mst12 = pow2(p.MSt(0));
    const double m32 = pow2(p.MG);
    const double MR2 = pow2(p.scale);
@@ -4252,6 +4258,12 @@ double ThresholdCalculator::getDRbarPrimeToMSbarXtTerms(Limits limit, int xtOrde
 {
    using himalaya::dilog;
 
+   if (isMsq2AtPole(limit)) {
+      return interpolateMsq2(limit, [limit, xtOrder, omitLogs] (const ThresholdCalculator& tc) {
+         return tc.getDRbarPrimeToMSbarXtTerms(limit, xtOrder, omitLogs);
+      });
+   }
+
    const double Mst12 = pow2(p.MSt(0));
    const double m32 = pow2(p.MG);
    const double MR2 = pow2(p.scale);
@@ -5935,6 +5947,37 @@ double ThresholdCalculator::interpolateMA(
    )/6;
 }
 
+double ThresholdCalculator::calcMsq2Pole(Limits limit) const
+{
+   return limit == Limits::MQ3_EQ_M3 ? p.mq2(2,2) : p.mu2(2,2);
+}
+
+bool ThresholdCalculator::isMsq2AtPole(Limits limit) const
+{
+   if (limit != Limits::MQ3_EQ_M3 && limit != Limits::MU3_EQ_M3)
+      return false;
+
+   const double pole = calcMsq2Pole(limit);
+
+   return std::abs(msq2 - pole) < 1e-3*std::abs(pole);
+}
+
+double ThresholdCalculator::interpolateMsq2(
+   Limits limit,
+   const std::function<double(const ThresholdCalculator&)>& correction) const
+{
+   const double h = 2e-3; // outside of the region around the pole
+   const double pole = calcMsq2Pole(limit);
+
+   ThresholdCalculator lower(*this), upper(*this);
+   lower.msq2 = pole*(1 - h);
+   upper.msq2 = pole*(1 + h);
+
+   const double w = (msq2 - lower.msq2)/(upper.msq2 - lower.msq2);
+
+   return (1 - w)*correction(lower) + w*correction(upper);
+}
+
 std::vector<double> ThresholdCalculator::calcShifts(const std::vector<Mass>& masses, double distance) const
 {
    const double eps = 0.01;
diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.hpp b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
index 86fc494..859b1a4 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.hpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.hpp
@@ -9,6 +9,7 @@
 
 #include "himalaya/Himalaya_interface.hpp"
 #include "himalaya/mh2_eft/EFTFlags.hpp"
+#include <functional>
 #include <vector>
 
 /**
@@ -370,6 +371,29 @@ private:
    double interpolateMA(
       double (ThresholdCalculator::*correction)(int) const,
       const std::vector<Mass>& masses, int omitLogs) const;
+   /**
+    * Returns the squared mass of the average squark, where the
+    * expressions of the given limit have a removable singularity
+    * @param limit MQ3_EQ_M3 or MU3_EQ_M3
+    * @return squared mass of the stop degenerate with the gluino
+    */
+   double calcMsq2Pole(Limits limit) const;
+   /**
+    * Checks if the average squark is degenerate with the gluino and a
+    * stop, where the expressions of the given limit are unstable
+    * @param limit mass limit
+    * @return true if the expressions are unstable
+    */
+   bool isMsq2AtPole(Limits limit) const;
+   /**
+    * Interpolates a correction in the average squared squark mass
+    * @param limit MQ3_EQ_M3 or MU3_EQ_M3
+    * @param correction function returning the correction
+    * @return interpolated correction
+    */
+   double interpolateMsq2(
+      Limits limit,
+      const std::function<double(const ThresholdCalculator&)>& correction) const;
    /**
     * Returns relative shifts of the given masses, which move nearly
     * degenerate masses apart from each other
-- 
2.43.0


From effddda1cd5c13d71856228c32377823e7407c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:01 +0000
Subject: [PATCH 15/28] fix: limit of equal masses is used if the DRbar'-MSbar
 conversion for general masses is imprecise

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 6b9e595..be45897 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -175,13 +175,17 @@ ThresholdCalculator::ThresholdCalculator(
 bool ThresholdCalculator::isGeneralPrecise()
 {
    const auto calculate = [this] {
-      return std::array<double, 6>{{
+      return std::array<double, 7>{{
          getDeltaYtAlphas(Limits::GENERAL, 1),
          getDeltaYtAlphas2(Limits::GENERAL, 1),
          getDeltaLambdaAlphat(Limits::GENERAL, 1),
          getDeltaLambdaAlphatAlphas(Limits::GENERAL, 1),
          getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1),
-         getDeltaVevYt2(Limits::GENERAL)
+         getDeltaVevYt2(Limits::GENERAL),
+         getDeltaLambdaAlphatAlphas2(Limits::GENERAL, 1)
+            + getDRbarPrimeToMSbarXtTerms(Limits::GENERAL, 4, 1)
+            + getDRbarPrimeToMSbarXtTerms(Limits::GENERAL, 5, 1)
+            + getDRbarPrimeToMSbarXtTerms(Limits::GENERAL, 6, 1)
       }};
    };
 
-- 
2.43.0


From 16f1e5e3d2f91312afedfcc7af92164c98747f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:53 +0000
Subject: [PATCH 16/28] fix: O(at*as) two-loop corrections for equal stop
 masses if the gluino is close to the stops

The limit formula used the absolute value of the Kaellen function, which
is wrong if it is negative, i.e. if |mg - mst| < mt.  Use the function
phi, which is valid for both signs, as the general formula does.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 109 +++++++++---------------------
 source/himalaya/mh2l/DSZHiggs.h   |   6 ++
 2 files changed, 37 insertions(+), 78 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index c36674d..e8461f4 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -7,7 +7,6 @@
 
 #include "himalaya/mh2l/DSZHiggs.hpp"
 #include "himalaya/mh2l/DSZHiggs.h"
-#include "himalaya/mh2l/Li2f.hpp"
 #include "himalaya/misc/CouplingOrders.hpp"
 #include <cmath>
 #include <iostream>
@@ -32,46 +31,54 @@ template <typename T> T constexpr sqr(T a) { return a * a; }
 template <typename T> T sqrtabs(T a) { return std::sqrt(std::abs(a)); }
 template <typename T> T logabs(T x) { return std::log(std::abs(x)); }
 
+/// phi(x,y,z), Davydychev and Tausk, Nucl. Phys. B397 (1993) 23
+double phi(double x, double y, double z)
+{
+   return phi_(&x, &y, &z);
+}
+
+/// shifts mst12 away from the zeros of the Kaellen function
+double shift_from_threshold(double mt2, double mst12, double g)
+{
+   constexpr double eps = 1e-7;
+   const double del = sqr(g - mt2 - mst12) - 4*mt2*mst12;
+
+   return std::abs(del) < eps*sqr(g + mt2 + mst12) ? mst12*(1 + 10*eps) : mst12;
+}
+
+/// First derivative of phi[t,T,g] w.r.t. T
+double dphi_010(double t, double T, double g)
+{
+   const double del = sqr(g - t - T) - 4*t*T;
+
+   return ((g + t - T)*phi(t,T,g) + g*(g - t - T)/T*std::log(t/g)
+           + 2*g*std::log(T/g))/del;
+}
+
 /// limit st -> 0 and mst1 -> mst2
 Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    double mt2, double mg, double mst12, double /* mst22 */,
    double /* sxt */, double /* cxt */, double scale2, double mu,
    double tanb, double vev2, double g3, int /* scheme */)
 {
-   constexpr double Pi2 = M_PI * M_PI;
    constexpr double Pi4 = M_PI * M_PI * M_PI * M_PI;
    const double g = sqr(mg);
    const double g2 = sqr(g);
    const double q = scale2;
    const double t = mt2;
    const double tsq = sqr(t);
-   const double T = mst12;
-   const double Tsq = sqr(mst12);
-   const double del = g2 + tsq + Tsq - 2*(g*t + g*T + t*T);
-   const double rdel = sqrtabs(del);
+   const double T = shift_from_threshold(mt2, mst12, g);
+   const double Tsq = sqr(T);
+   const double del = sqr(g - t - T) - 4*t*T;
    const double sb = std::sin(std::atan(tanb));
    const double ht2 = 2./vev2*mt2/sqr(sb);
+   const double K = -1 + logabs(t/q) - T*dphi_010(t,T,g);
 
    Eigen::Matrix<double, 2, 2> result;
 
    result(0,0) = 0.;
 
-   result(0,1) = (sqr(g3)*ht2*mg*mt2*mu* (-1 + logabs(t/q) -
-      (T*((2*del* (-(logabs(t/g)/T) - (2*(g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T - g*sqrtabs(del/g2))/
-      (2.*g)))/ (g*sqrtabs(del/g2)* (t - T + g*(-1 +
-      sqrtabs(del/g2)))) + (2*logabs((g - t + T - g*sqrtabs(del/g2))/
-      (2.*g)))/(g*sqrtabs(del/g2)) - (2*((g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T + g*sqrtabs(del/g2))/
-      (2.*g)) + (g - t + T - g*sqrtabs(del/g2))* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g))))/ (g*sqrtabs(del/g2)* (t - T +
-      g*(-1 + sqrtabs(del/g2))))))/ g2 + (2*(g + t - T)*(Pi2 -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g))*logabs((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g))))/ (3.*g2)))/(2.*std::pow(std::abs(del)/g2,1.5))))/
-      (8.*Pi4*T);
+   result(0,1) = sqr(g3)*ht2*mg*mt2*mu*K/(8.*Pi4*T);
 
    result(1,0) = result(0,1);
 
@@ -81,27 +88,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
       + T) + 2*g*t*(t + 5*T))*logabs(t/g) +
       4*g2*T*logabs(T/g)))/(del*T) + 2*logabs(T/q) -
       8*sqr(logabs(T/q)) + 5*logabs(Tsq/tsq) + sqr(logabs(Tsq/tsq)) +
-      (4*g2*(g + t - T)*(Pi2 - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/ (2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))* logabs((-rdel + g - t +
-      T)/(2.*g))))/(3.*std::pow(std::abs(del),1.5)) + (4*g*(g + t - T)*(Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((g + t - T - g*sqrtabs(del/g2))/(2.*g))* logabs((g - t
-      + T - g*sqrtabs(del/g2))/(2.*g))))/ (3.*del*sqrtabs(del/g2)) +
-      (8*mg*mu*(1/T - logabs(t/q)/T + (g*(g + t - T)* (Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))*logabs((-rdel + g - t +
-      T)/(2.*g))))/ (3.*std::pow(std::abs(del),1.5)) + (g*(-(logabs(t/g)/T) -
-      (2*(-(g*logabs(4.)) + (rdel + g + t - T)*logabs((-rdel + g + t -
-      T)/g) + (-rdel + g - t + T)*logabs((-rdel + g - t + T)/g)))/
-      (rdel*(rdel - g + t - T)) - 2*(((rdel + g + t - T)* logabs((g +
-      t - T + g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(t - T + g*(-1 +
-      sqrtabs(del/g2)))) - ((rdel - g - t + T)* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(-t + T + g*(-1 +
-      sqrtabs(del/g2)))))))/ rdel))/tanb))/(32.*Pi4);
+      8*g*(g + t - T)*phi(t,T,g)/del - 8*mg*mu*K/(T*tanb)))/(32.*Pi4);
 
    return result;
 }
@@ -149,40 +136,6 @@ double calc_At(double mt2, double mst12, double mst22,
    return At;
 }
 
-double phi(double x, double y, double z)
-{
-   const double u = x/z, v = y/z;
-   const double lambda = sqrtabs(sqr(1 - u - v) - 4*u*v);
-   const double xp = 0.5 * (1 + (u - v) - lambda);
-   const double xm = 0.5 * (1 - (u - v) - lambda);
-
-   return 1./lambda * (2*logabs(xp)*logabs(xm) - logabs(u)*logabs(v) -
-                       2*(li2(xp) + li2(xm)) + M_PI*M_PI/3.);
-}
-
-/// First derivative of phi[t,T,g] w.r.t. T
-double dphi_010(double t, double T, double g)
-{
-   constexpr double Pi2 = M_PI * M_PI;
-   const double g2 = sqr(g);
-   const double abbr = (-4*t*T)/g2 + sqr(1 - t/g - T/g);
-   const double rabbr = sqrtabs(abbr);
-
-   return ((g + t - T)*(Pi2 - 6*li2((g - rabbr*g + t - T)/(2.*g)) -
-      6*li2((g - rabbr*g - t + T)/(2.*g)) -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g - rabbr*g + t -
-      T)/(2.*g))*logabs((g - rabbr*g - t + T)/(2.*g))) + (3*rabbr*g* (
-      rabbr*g*((-1 + rabbr)*g + t - T)*logabs(t/g) +
-      2*T*(-2*g*logabs(4.) + (g + rabbr*g + t - T)*logabs((g - rabbr*g
-      + t - T)/g) + (g + rabbr*g + t - T)*logabs((g + rabbr*g + t -
-      T)/g) + g*logabs((g - rabbr*g - t + T)/g) - rabbr*g*logabs((g -
-      rabbr*g - t + T)/g) - t*logabs((g - rabbr*g - t + T)/g) +
-      T*logabs((g - rabbr*g - t + T)/g) + g*logabs((g + rabbr*g - t +
-      T)/g) - rabbr*g*logabs((g + rabbr*g - t + T)/g) - t*logabs((g +
-      rabbr*g - t + T)/g) + T*logabs((g + rabbr*g - t + T)/g)) ) ) /
-      (T*(g - rabbr*g - t + T)))/(3.*std::pow(std::abs(abbr),1.5)*g2);
-}
-
 } // anonymous namespace
 
 double delta_ma2_2loop_at_as_mst1_eq_mst2(
@@ -196,7 +149,7 @@ double delta_ma2_2loop_at_as_mst1_eq_mst2(
    const double q = scale2;
    const double q2 = sqr(scale2);
    const double t = mt2;
-   const double T = mst12;
+   const double T = shift_from_threshold(mt2, mst12, g);
    const double sb = std::sin(std::atan(tanb));
    const double ht2 = 2./vev2*mt2/sqr(sb);
    const double At = calc_At(mt2, mst12, mst22, sxt, cxt, mu, tanb);
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6f4b677..6ac47d6 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -16,6 +16,12 @@ extern "C" {
  * @brief Contains two-loop routines from Slavich et al.
  */
 
+/**
+ * Function phi(x,y,z) from Davydychev and Tausk, Nucl. Phys. B397
+ * (1993) 23.
+ */
+double phi_(double * x, double * y, double * z);
+
 /**
  * Two-loop O(a_t a_s) corrections to the CP-even Higgs mass matrix.
  * Routine written by P. Slavich (e-mail: slavich@pd.infn.it).
-- 
2.43.0


From ad253b1e6a61951545bcb3b828696e4dc759b846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:53 +0000
Subject: [PATCH 17/28] fix: sign of the cosine of the squark mixing angles in
 the O(at^2) corrections

The guards against a vanishing sine recomputed the cosine as a positive
number, although the mixing angles are between -pi/4 and 3/4*pi, and did
not protect against a vanishing cosine (no mixing and mU3 < mQ3).
---
 source/himalaya/mh2l/DSZHiggs.f | 84 ++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 937522d..3b13f31 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -54,15 +54,15 @@ c
       mt = dsqrt(t)
       mb = dsqrt(b)
 
-c     ADDED by ALEX: guards against NANs when sin theta is zero!
+c     ADDED by ALEX: guards against NANs when sin theta or cos theta
+c     is zero!
       if (dabs(st).lt.eps_st) then
-         if (st.ge.0.0d0) then
-            st = eps_st
-         else
-            st = -eps_st
-         endif
+         st = dsign(eps_st,st)
+         ct = dsign(dsqrt(1.d0-st*st),ct)
+      elseif (dabs(ct).lt.eps_st) then
+         ct = dsign(eps_st,ct)
+         st = dsign(dsqrt(1.d0-ct*ct),st)
       endif
-      ct = sqrt(1.d0-st*st)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -75,15 +75,15 @@ c     ADDED by ALEX: guards against NANs when T1 == T2
       endif
 c     end of addition by ALEX
 
-c     ADDED by ALEX: guards against NANs when sin theta is zero!
+c     ADDED by ALEX: guards against NANs when sin theta or cos theta
+c     is zero!
       if (dabs(sb).lt.eps_sb) then
-         if (sb.ge.0.0d0) then
-            sb = eps_sb
-         else
-            sb = -eps_sb
-         endif
+         sb = dsign(eps_sb,sb)
+         cb = dsign(dsqrt(1.d0-sb*sb),cb)
+      elseif (dabs(cb).lt.eps_sb) then
+         cb = dsign(eps_sb,cb)
+         sb = dsign(dsqrt(1.d0-cb*cb),sb)
       endif
-      cb = sqrt(1.d0-sb*sb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -213,15 +213,15 @@ c     end of addition by ALEX
       mt = dsqrt(t)
       mb = dsqrt(b)
       
-c     ADDED by ALEX: guards against NANs when sin theta is zero!
+c     ADDED by ALEX: guards against NANs when sin theta or cos theta
+c     is zero!
       if (dabs(st).lt.eps_st) then
-         if (st.ge.0.0d0) then
-            st = eps_st
-         else
-            st = -eps_st
-         endif
+         st = dsign(eps_st,st)
+         ct = dsign(dsqrt(1.d0-st*st),ct)
+      elseif (dabs(ct).lt.eps_st) then
+         ct = dsign(eps_st,ct)
+         st = dsign(dsqrt(1.d0-ct*ct),st)
       endif
-      ct = sqrt(1.d0-st*st)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -234,15 +234,15 @@ c     ADDED by ALEX: guards against NANs when T1 == T2
       endif
 c     end of addition by ALEX
 
-c     ADDED by ALEX: guards against NANs when sin theta is zero!
+c     ADDED by ALEX: guards against NANs when sin theta or cos theta
+c     is zero!
       if (dabs(sb).lt.eps_sb) then
-         if (sb.ge.0.0d0) then
-            sb = eps_sb
-         else
-            sb = -eps_sb
-         endif
+         sb = dsign(eps_sb,sb)
+         cb = dsign(dsqrt(1.d0-sb*sb),cb)
+      elseif (dabs(cb).lt.eps_sb) then
+         cb = dsign(eps_sb,cb)
+         sb = dsign(dsqrt(1.d0-cb*cb),sb)
       endif
-      cb = sqrt(1.d0-sb*sb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -357,15 +357,15 @@ c     end of addition by ALEX
       mt = dsqrt(t)
       mb = dsqrt(b)
 
-c     ADDED by ALEX: guards against NANs when sin theta is zero!
+c     ADDED by ALEX: guards against NANs when sin theta or cos theta
+c     is zero!
       if (dabs(st).lt.eps_st) then
-         if (st.ge.0.0d0) then
-            st = eps_st
-         else
-            st = -eps_st
-         endif
+         st = dsign(eps_st,st)
+         ct = dsign(dsqrt(1.d0-st*st),ct)
+      elseif (dabs(ct).lt.eps_st) then
+         ct = dsign(eps_st,ct)
+         st = dsign(dsqrt(1.d0-ct*ct),st)
       endif
-      ct = sqrt(1.d0-st*st)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -378,15 +378,15 @@ c     ADDED by ALEX: guards against NANs when T1 == T2
       endif
 c     end of addition by ALEX
 
-c     ADDED by ALEX: guards against NANs when sin theta is zero!
+c     ADDED by ALEX: guards against NANs when sin theta or cos theta
+c     is zero!
       if (dabs(sb).lt.eps_sb) then
-         if (sb.ge.0.0d0) then
-            sb = eps_sb
-         else
-            sb = -eps_sb
-         endif
+         sb = dsign(eps_sb,sb)
+         cb = dsign(dsqrt(1.d0-sb*sb),cb)
+      elseif (dabs(cb).lt.eps_sb) then
+         cb = dsign(eps_sb,cb)
+         sb = dsign(dsqrt(1.d0-cb*cb),sb)
       endif
-      cb = sqrt(1.d0-sb*sb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
-- 
2.43.0


From f43c1e5ae04f95fd3e3d850e7a6e90a14bf675fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 18/28] fix: O(at^2) CP-odd mass correction in the limit of
 vanishing bottom Yukawa coupling

---
 source/himalaya/mh2l/DSZHiggs.f | 34 ++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 3b13f31..31d56c6 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -196,7 +196,7 @@ c     end of addition by ALEX
       
       double precision t,b,A0,T1,T2,B1,B2,st,ct,sb,cb,q,mu,tanb,vv,DMA
       double precision c2t,s2t,c2b,s2b,At,Ab,Xt,Xb,mt,mb,cbe,sbe,ht,hb
-     $     ,k
+     $     ,hbmb,k
       double precision F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb
      $     ,FAp
       integer atat
@@ -309,10 +309,11 @@ c     end of addition by ALEX
       cbe = dcos(datan(tanb))
       
       ht = dsqrt(2d0/vv)*mt/sbe
+      hbmb = dsqrt(2d0/vv)/cbe
       if (atat.eq.1) then
         hb = 0d0
       else
-        hb = dsqrt(2d0/vv)*mb/cbe
+        hb = hbmb*mb
       endif
       
       k = 3d0/(16d0*Pi**2)**2 
@@ -320,8 +321,9 @@ c     end of addition by ALEX
       call makefuncs(t,b,A0,T1,T2,B1,B2,s2t,c2t,s2b,c2b,q,mu,vv,tanb,
      $     F1t,F2t,F3t,F4t,F1b,F2b,F3b,F4b,F5,F6,Ft,Fb,Gt,Gb,FAp,atat)
       
+c     hb*FAp is finite for hb -> 0
       DMA = -(ht**2*mu*At/(T1-T2)*Ft + hb**2*mu*Ab/(B1-B2)*Fb
-     $     + 2d0*ht*hb*FAp)/sbe/cbe
+     $     + 2d0*ht*hbmb*mb*FAp)/sbe/cbe
       
       DMA = k*DMA
       
@@ -586,16 +588,22 @@ c     end of addition by ALEX
       At = Xt - mu/tanb
       Ab = Xb - mu*tanb
       
-      FAp = Dcptpb/4d0/Sqrt(b)/Sqrt(t)
-     $     +4d0*(At*Ab - mu**2)**2*Sqrt(t)*Sqrt(b)
-     $     /s2t**2/s2b**2/(T1-T2)**2/(B1-B2)**2*Dcpttptb
-     $     +Sqrt(t)/Sqrt(b)/s2t**2/(T1-T2)**2
-     $     *(At**2*Dcpbptt + mu**2/tanb**2*Dcptmptt)
-     $     +Sqrt(b)/Sqrt(t)/s2b**2/(B1-B2)**2
-     $     *(Ab**2*Dcptptb + mu**2*tanb**2*Dcpbmptb)
-     $     -2d0*mu/s2t/s2b/(T1-T2)/(B1-B2)
-     $     *(At*tanb*Dspbmptbspbptt + Ab/tanb*Dsptmpttsptptb
-     $     + mu*Dsptmpttspbmptb)
+c     only the term ~ 1/mb contributes to hb*FAp for hb -> 0
+      if (atat.eq.1) then
+         FAp = Sqrt(t)/Sqrt(b)/s2t**2/(T1-T2)**2
+     $        *mu**2/tanb**2*Dcptmptt
+      else
+         FAp = Dcptpb/4d0/Sqrt(b)/Sqrt(t)
+     $        +4d0*(At*Ab - mu**2)**2*Sqrt(t)*Sqrt(b)
+     $        /s2t**2/s2b**2/(T1-T2)**2/(B1-B2)**2*Dcpttptb
+     $        +Sqrt(t)/Sqrt(b)/s2t**2/(T1-T2)**2
+     $        *(At**2*Dcpbptt + mu**2/tanb**2*Dcptmptt)
+     $        +Sqrt(b)/Sqrt(t)/s2b**2/(B1-B2)**2
+     $        *(Ab**2*Dcptptb + mu**2*tanb**2*Dcpbmptb)
+     $        -2d0*mu/s2t/s2b/(T1-T2)/(B1-B2)
+     $        *(At*tanb*Dspbmptbspbptt + Ab/tanb*Dsptmpttsptptb
+     $        + mu*Dsptmpttspbmptb)
+      endif
       
       return
       end
-- 
2.43.0


From 4baa51f1aa450211217cfafcaea2c3a4d392f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:44 +0000
Subject: [PATCH 19/28] fix: one-loop function B0 if one of the masses vanishes

---
 source/himalaya/mh2_fo/PV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 2174a38..5e113e7 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -166,7 +166,7 @@ double b0(double p2, double m12, double m22, double q2) noexcept
 
    if (m12 < EPSTOL * EPSTOL * m22) {
       const double del = std::hypot(m22 - p2, EPSTOL * m22);
-      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / p2);
+      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / m22);
    }
 
    const double s = p2 - m22 + m12;
-- 
2.43.0


From 4ce1901d9645fbdc207d371639211edf36f8662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:17 +0000
Subject: [PATCH 20/28] fix: O(atau^2) corrections for small mu

---
 source/himalaya/mh2l/DSZHiggs.f | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 31d56c6..8ba86f9 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -5783,8 +5783,19 @@ c$$$  k = 3d0*ht**2/(16d0*Pi**2)**2
       call taufuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,F1,F2,F3)
       call tausfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,ht,
      $     dmuF2,dmuF3,dAtF2,dAtF3,DM12,DM22)
-      call taudfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,v2,
-     $     DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3)
+c     the shifts to the on-shell scheme are singular for mu -> 0
+      if(OS.ne.0) then
+         call taudfuncs(t,A0,BL,T1,T2,s2t,c2t,cb,sb,q,mu,A,v2,
+     $        DF1,DF2,DF3,DdmuF2,DdmuF3,DdAtF2,DdAtF3)
+      else
+         DF1 = 0d0
+         DF2 = 0d0
+         DF3 = 0d0
+         DdmuF2 = 0d0
+         DdmuF3 = 0d0
+         DdAtF2 = 0d0
+         DdAtF3 = 0d0
+      endif
       
       osdr = 1d0*OS
       
-- 
2.43.0


From 372f40f32a068f73f5d1a3c8f590d718ec1f8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:51 +0000
Subject: [PATCH 21/28] fix: singularities of the two-loop fixed-order
 corrections for vanishing mu and unmixed degenerate sfermions

---
 source/himalaya/mh2l/DSZHiggs.cpp | 50 +++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index e8461f4..a966054 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -8,6 +8,7 @@
 #include "himalaya/mh2l/DSZHiggs.hpp"
 #include "himalaya/mh2l/DSZHiggs.h"
 #include "himalaya/misc/CouplingOrders.hpp"
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 #include <limits>
@@ -126,6 +127,41 @@ Eigen::Matrix<double, 2, 2> rotate_by(double dm2, double tanb)
    return result;
 }
 
+/// avoids the removable singularity at mu = 0
+double avoid_zero_mu(double mu, double scale2)
+{
+   return std::copysign(std::max(std::abs(mu), 1e-6*sqrtabs(scale2)), mu);
+}
+
+/// avoids the removable singularities for equal sfermion masses and no mixing
+void avoid_degeneracy(
+   double& msf12, double& msf22, double& sf, double& cf, double eps_s = 1e-10)
+{
+   constexpr double eps_m = 1e-4;
+   const double diff = msf12 - msf22;
+   const double mean = 0.5*(msf12 + msf22);
+
+   // keep diff * sin(2*theta), i.e. the off-diagonal matrix element
+   if (std::abs(diff) < eps_m*mean) {
+      const double diff_new = std::copysign(eps_m*mean, diff);
+      const double s2 = 2*sf*cf*diff/diff_new;
+      const double c2 = std::copysign(sqrtabs(1 - sqr(s2)), sqr(cf) - sqr(sf));
+      const double theta = 0.5*std::atan2(s2, c2);
+      msf12 = mean + 0.5*diff_new;
+      msf22 = mean - 0.5*diff_new;
+      sf = std::sin(theta);
+      cf = std::cos(theta);
+   }
+
+   if (std::abs(sf) < eps_s) {
+      sf = std::copysign(eps_s, sf);
+      cf = std::copysign(std::sqrt(1 - sqr(sf)), cf);
+   } else if (std::abs(cf) < eps_s) {
+      cf = std::copysign(eps_s, cf);
+      sf = std::copysign(std::sqrt(1 - sqr(cf)), sf);
+   }
+}
+
 double calc_At(double mt2, double mst12, double mst22,
    double sxt, double cxt, double mu, double tanb)
 {
@@ -208,6 +244,9 @@ double delta_ma2_2loop_at_at(
    double scale2, double mu, double tanb, double vev2, int atat)
 {
    double result = 0.;
+   mu = avoid_zero_mu(mu, scale2);
+   avoid_degeneracy(mst12, mst22, sxt, cxt, 1e-7);
+   avoid_degeneracy(msb12, msb22, sxb, cxb, 1e-7);
 
    {
       std::lock_guard<std::mutex> lg(mtx);
@@ -251,6 +290,9 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_at(
    int include_heavy_higgs, int atat)
 {
    Eigen::Matrix<double, 2, 2> result;
+   mu = avoid_zero_mu(mu, scale2);
+   avoid_degeneracy(mst12, mst22, sxt, cxt, 1e-7);
+   avoid_degeneracy(msb12, msb22, sxb, cxb, 1e-7);
 
    {
       std::lock_guard<std::mutex> lg(mtx);
@@ -292,6 +334,8 @@ double delta_ma2_2loop_atau_atau(
    double mu, double tanb, double vev2)
 {
    double result = 0.;
+   mu = avoid_zero_mu(mu, scale2);
+   avoid_degeneracy(mstau12, mstau22, sintau, costau);
 
    tausqodd_(&mtau2, &mA2, &msv2, &mstau12, &mstau22, &sintau,
              &costau, &scale2, &mu, &tanb, &vev2, &result);
@@ -307,6 +351,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_atau_atau(
 {
    int scheme = 0;
    Eigen::Matrix<double, 2, 2> result;
+   mu = avoid_zero_mu(mu, scale2);
+   avoid_degeneracy(mstau12, mstau22, sintau, costau);
 
    tausqhiggs_(&mtau2, &mA2, &msv2, &mstau12, &mstau22, &sintau,
                &costau, &scale2, &mu, &tanb, &vev2, &scheme,
@@ -330,6 +376,8 @@ double delta_ma2_2loop_ab_atau(
    double scale2, double mu, double tanb, double vev2)
 {
    double result = 0.;
+   avoid_degeneracy(mstau12, mstau22, sintau, costau);
+   avoid_degeneracy(msb12, msb22, sxb, cxb);
 
    taubotodd_(&mtau2, &mb2,
               &mstau12, &mstau22, &msb12, &msb22,
@@ -347,6 +395,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
    int include_heavy_higgs)
 {
    Eigen::Matrix<double, 2, 2> result;
+   avoid_degeneracy(mstau12, mstau22, sintau, costau);
+   avoid_degeneracy(msb12, msb22, sxb, cxb);
 
    taubot_(&mtau2, &mb2,
            &mstau12, &mstau22, &msb12, &msb22,
-- 
2.43.0


From cf577521a19c84994078a62517baf83254825233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 22/28] fix: O(at*as) corrections for nearly equal stop masses

---
 source/himalaya/mh2l/DSZHiggs.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index a966054..39e68ba 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -127,6 +127,10 @@ Eigen::Matrix<double, 2, 2> rotate_by(double dm2, double tanb)
    return result;
 }
 
+/// relative difference of the squared stop masses, below which the
+/// limit of equal masses is more precise than the general expression
+constexpr double eps_mst = 1e-5;
+
 /// avoids the removable singularity at mu = 0
 double avoid_zero_mu(double mu, double scale2)
 {
@@ -222,7 +226,7 @@ double delta_ma2_2loop_at_as(
    double sxt, double cxt, double scale2, double mu,
    double tanb, double vev2, double g3)
 {
-   if (std::abs((mst12 - mst22)/mst12) < 1e-8) {
+   if (std::abs((mst12 - mst22)/mst12) < eps_mst) {
       const double At = calc_At(mt2, mst12, mst22, sxt, cxt, mu, tanb);
 
       // if At = 0 => mu = 0 => dMA(2L) = 0
@@ -266,7 +270,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as(
 {
    Eigen::Matrix<double, 2, 2> result;
 
-   if (std::abs((mst12 - mst22)/mst12) < 1e-8) {
+   if (std::abs((mst12 - mst22)/mst12) < eps_mst) {
       result = delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
          mt2, mg, mst12, mst22, sxt, cxt, scale2, mu, tanb, vev2, g3, 0);
    } else {
-- 
2.43.0


From bfc21644fcf88f72ee5599e72662e70c662b60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:43 +0000
Subject: [PATCH 23/28] fix: order of the outputs of taubot in the two-loop
 O(ab*atau) corrections

---
 source/himalaya/mh2l/DSZHiggs.cpp | 2 +-
 source/himalaya/mh2l/DSZHiggs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 39e68ba..37ee8e8 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -406,7 +406,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
            &scale2, &mu, &tanb, &vev2,
-           &result(0,0), &result(1,1), &result(0,1));
+           &result(0,0), &result(0,1), &result(1,1));
 
    result(1,0) = result(0,1);
 
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6ac47d6..bdbb67a 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -108,7 +108,7 @@ int taubot_(double * t, double * b,
             double * T1, double * T2, double * B1, double * B2,
             double * st, double * ct, double * sb, double * cb,
             double * q, double * mu, double * tanb, double * vv,
-            double * S11, double * S22, double * S12);
+            double * S11, double * S12, double * S22);
 
 /**
  * Two-loop O(a_t a_s) corrections to the CP-odd Higgs mass in the
-- 
2.43.0


From 2be471ed2467445ff2238f5894c7ecf9b933443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 24/28] fix: no momentum iterations, no correction

With a maximum of zero iterations delta_mh2_2loop_mom_it_num returned minus the tree-level and one-loop mass matrix instead of zero.
---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 1846938..56615ed 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -614,10 +614,11 @@ RM22 MSSM_mass_eigenstates::delta_mh2_2loop_mom_it_num(
 {
    const auto DMH_0L = get_mass_matrix_hh();
    const auto mh2_0L = masses.M2hh(0);
+   const auto DMH_1L = delta_mh2_1loop(mh2_0L);
    auto p2 = mh2_0L;
    int n = 0;
    bool has_converged = false;
-   RM22 DMH(RM22::Zero());
+   RM22 DMH(DMH_0L + DMH_1L);
 
    while (!has_converged && n < max_iterations) {
       DMH = DMH_0L + delta_mh2_1loop(p2);
@@ -636,7 +637,7 @@ RM22 MSSM_mass_eigenstates::delta_mh2_2loop_mom_it_num(
                   << n << " iterations.");
    }
 
-   return DMH - DMH_0L - delta_mh2_1loop(mh2_0L);
+   return DMH - DMH_0L - DMH_1L;
 }
 
 RM22 MSSM_mass_eigenstates::get_mass_matrix_hh() const
-- 
2.43.0


From 55ba454a1dbdad8e488ef539b7c9493d3448a2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:28 +0000
Subject: [PATCH 25/28] fix: no bottom and tau Yukawa couplings in the one-loop
 top-only correction

---
 source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
index 56615ed..3924600 100644
--- a/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
+++ b/source/himalaya/mh2_fo/MSSM_mass_eigenstates.cpp
@@ -201,8 +201,8 @@ RM22 MSSM_mass_eigenstates::delta_mh2_1loop(double p2) const
    const auto g1     = pars.g1;
    const auto g2     = pars.g2;
    const auto yt     = pars.Yu(2,2);
-   const auto yb     = pars.Yd(2,2);
-   const auto ytau   = pars.Ye(2,2);
+   const auto yb     = orders.at(CouplingOrders::ONLY_AT_AS) == 1 ? 0. : pars.Yd(2,2);
+   const auto ytau   = orders.at(CouplingOrders::ONLY_AT_AS) == 1 ? 0. : pars.Ye(2,2);
    const auto vu     = pars.vu;
    const auto vd     = pars.vd;
    const auto mu     = pars.mu;
-- 
2.43.0


From 842b4772d368f506c480a16852654bbfeabb6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 26/28] fix: sbottom mixing in the bottom Yukawa threshold
 correction at O(yb^2)

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index be45897..ab354f9 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -768,7 +768,7 @@ double ThresholdCalculator::getDeltaYbYb(int omitLogs) const
    const double lmUMR = omitLogs*std::log(pow2(p.mu) / MR2);
 
    return (6*lmUMR + 4*F6(mD3/p.mu) + 8*F6(mQ3/p.mu) - (2*Xb2*F5(mQ3/mD3)*pow2(cbeta))/
-        (mD3*mQ3*pow2(sbeta)) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
+        (mD3*mQ3) + 3*(-1 + 2*omitLogs*std::log(mA2/MR2))*pow2(sbeta))/8.;
 }
 
 double ThresholdCalculator::getDeltaYbYt(int omitLogs) const
-- 
2.43.0


From adb918a6ffb26967d5cbd19dce7bacd2f353463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:57 +0000
Subject: [PATCH 27/28] fix: sbottom instead of stop mixing in the tau Yukawa
 threshold correction at O(yb^2)

---
 source/himalaya/mh2_eft/ThresholdCalculator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index ab354f9..28bc6b5 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -911,12 +911,12 @@ double ThresholdCalculator::getDeltaVevG22(int /* omitLogs */) const
 
 double ThresholdCalculator::getDeltaYtauYb() const
 {
-   const double Xt2 = pow2(calcXt());
+   const double Xb2 = pow2(calcXb());
    const double mQ3 = std::sqrt(p.mq2(2,2));
-   const double mU3 = std::sqrt(p.mu2(2,2));
-   const double sbeta = calcSinBeta();
+   const double mD3 = std::sqrt(p.md2(2,2));
+   const double cbeta = calcCosBeta();
 
-   return -(pow2(sbeta)*Xt2*F5(mQ3/mU3))/(4*mQ3*mU3);
+   return -(pow2(cbeta)*Xb2*F5(mQ3/mD3))/(4*mQ3*mD3);
 }
 
 double ThresholdCalculator::getDeltaLambdaYb4G32(int omitLogs) const
-- 
2.43.0


From 14aa5c9b2480c8ca59c28aad9f7c1ea62657915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:46 +0000
Subject: [PATCH 28/28] fix: dependence of the bottom-tau threshold corrections
 to lambda on tan(beta)

---
 .../himalaya/mh2_eft/ThresholdCalculator.cpp  | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdCalculator.cpp b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
index 28bc6b5..83c582d 100644
--- a/source/himalaya/mh2_eft/ThresholdCalculator.cpp
+++ b/source/himalaya/mh2_eft/ThresholdCalculator.cpp
@@ -2915,24 +2915,23 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
    const double mL3 = std::sqrt(p.ml2(2,2));
    const double mE3 = std::sqrt(p.me2(2,2));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(cbeta*sbeta*pow4(mL3));
+      return (-4*lmQ3MR*Xb*Xtau*(-6*pow2(mL3) + Xtau2))/(pow2(cbeta)*pow4(mL3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (-4*Xb*Xtau*(-6*pow2(mL3) + Xtau2)*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(
-        mD32/mQ32)))/(cbeta*(mD32 - mQ32)*sbeta*pow4(mL3));
+        mD32/mQ32)))/(pow2(cbeta)*(mD32 - mQ32)*pow4(mL3));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-24*lmQ3MR*Xb*Xtau*(2*(-mE32 + mL32)*Xtau2 + log(mE32/mL32)*(mL32*Xtau2
-        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(cbeta*sbeta*pow3(
+        + mE32*(2*mL32 + Xtau2) - pow4(mE3) - pow4(mL3))))/(pow2(cbeta)*pow3(
         mE32 - mL32));
    }
 
@@ -2940,7 +2939,7 @@ double ThresholdCalculator::getDeltaLambdaYtau4Yb2(int omitLogs) const
       = (-24*Xb*Xtau*((-1 + lmQ3MR)*(mD32 - mQ32) + mD32*log(mD32/mQ32))*(2*
         Xtau2*(-pow2(mE3) + pow2(mL3)) + log(pow2(mE3)/pow2(mL3))*(Xtau2*pow2(
         mL3) + pow2(mE3)*(Xtau2 + 2*pow2(mL3)) - pow4(mE3) - pow4(mL3))))/(
-        cbeta*(mD32 - mQ32)*sbeta*pow3(pow2(mE3) - pow2(mL3)));
+        pow2(cbeta)*(mD32 - mQ32)*pow3(pow2(mE3) - pow2(mL3)));
 
    return exact;
 }
@@ -2961,32 +2960,31 @@ double ThresholdCalculator::getDeltaLambdaYtau2Yb4(int omitLogs) const
    const double lmD3MR = omitLogs*std::log(pow2(mD3)/pow2(p.scale));
    const double lmQ3MR = omitLogs*std::log(mQ32 / pow2(p.scale));
    const double cbeta = calcCosBeta();
-   const double sbeta = calcSinBeta();
    const double eps = mQ3*0.01;
 
    if (std::abs(mE3 - mL3) < eps && std::abs(mD3 - mQ3) < eps) {
-      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(cbeta*sbeta*pow4(mQ3));
+      return (-4*lmL3MR*Xb*(-6*mQ32 + Xb2)*Xtau)/(pow2(cbeta)*pow4(mQ3));
    }
 
    if (std::abs(mE3 - mL3) < eps) {
       return (24*lmL3MR*Xb*Xtau*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*Xb2 + mD32*(2*mQ32
         + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR*(-(mQ32*Xb2) - mD32*(2*mQ32 +
-        Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*sbeta*pow3(mD32 - mQ32));
+        Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(cbeta)*pow3(mD32 - mQ32));
    }
 
    if (std::abs(mD3 - mQ3) < eps) {
       const double mE32 = pow2(mE3);
       const double mL32 = pow2(mL3);
       return (-4*(-mE32 + lmE3MR*mE32 + mL32 - lmL3MR*mL32)*Xb*(-6*mQ32 + Xb2)*Xtau)/(
-        cbeta*(mE32 - mL32)*sbeta*pow4(mQ3));
+        pow2(cbeta)*(mE32 - mL32)*pow4(mQ3));
    }
 
    const double exact
       = (24*Xb*Xtau*(-pow2(mE3) + lmE3MR*pow2(mE3) + pow2(mL3) -
         lmL3MR*pow2(mL3))*(2*(mD32 - mQ32)*Xb2 + lmQ3MR*(mQ32*
         Xb2 + mD32*(2*mQ32 + Xb2) - pow4(mD3) - pow4(mQ3)) + lmD3MR
-        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(cbeta*
-        sbeta*(pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
+        *(-(mQ32*Xb2) - mD32*(2*mQ32 + Xb2) + pow4(mD3) + pow4(mQ3))))/(pow2(cbeta)*
+        (pow2(mE3) - pow2(mL3))*pow3(mD32 - mQ32));
 
    return exact;
 }
-- 
2.43.0

