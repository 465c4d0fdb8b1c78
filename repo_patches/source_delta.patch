From 717436289ec67687c0e73de92f46c40151418007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:14 +0000
Subject: [PATCH 1/6] fix: epco() accepts lower-case 'j' result and 'b' given
 epoch types as documented

---
 src/epco.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/epco.cc b/src/epco.cc
index e080738..7b444c5 100644
--- a/src/epco.cc
+++ b/src/epco.cc
@@ -34,12 +34,16 @@ namespace sla {
 double epco(char result, char given, double epoch) {
     if (result == 'b') {
         result = 'B';
+    } else if (result == 'j') {
+        result = 'J';
     }
     if (result != 'B' && result != 'J') {
         return 0.0;
     }
     if (given == 'j') {
         given = 'J';
+    } else if (given == 'b') {
+        given = 'B';
     }
     if (given != 'B' && given != 'J') {
         return 0.0;
-- 
2.43.0


From 41aea12b19b55f05fa2ef9cd2b9614a6037616a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:14 +0000
Subject: [PATCH 2/6] fix: fitxy() reports FIT_NONE for two coincident samples
 in the solid body rotation fit

---
 src/fitxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fitxy.cc b/src/fitxy.cc
index 9367044..62d7e55 100644
--- a/src/fitxy.cc
+++ b/src/fitxy.cc
@@ -66,7 +66,7 @@ FITStatus fitxy(bool sbr, int nsamples, const XYSamples expected, const XYSample
     double b_old = 0.0;
     double c_old = 0.0;
     double d_old = 0.0;
-    double sdr2_old = 0.0;
+    double sdr2_old = -1.0;
 
     // get floating-point value of the number of samples
     auto num_samples = (const double) nsamples;
-- 
2.43.0


From c27dcbf2e414e6ef3cb816c25bed27feee17ecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:32 +0000
Subject: [PATCH 3/6] fix: calendar conversions no longer overflow int for
 far-future dates they accept

---
 src/cldj.cc  |  4 ++--
 src/clyd.cc  | 12 ++++++------
 src/djcal.cc |  8 ++++----
 src/djcl.cc  |  8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/cldj.cc b/src/cldj.cc
index 21d5685..e519e27 100644
--- a/src/cldj.cc
+++ b/src/cldj.cc
@@ -37,9 +37,9 @@ G2JStatus cldj(int year, int month, int day, double& mjd) {
         // validate month
         if (month >= 1 && month <= 12) {
             // calculate and return Modified Julian Date
-            mjd = double((1461 * (year - (12 - month) / 10 + 4712)) / 4
+            mjd = double((1461LL * (year - (12 - month) / 10 + 4712LL)) / 4
                 + (306 * ((month + 9) % 12) + 5) / 10
-                - (3 * ((year - (12 - month) / 10 + 4900) / 100)) / 4
+                - (3LL * ((year - (12 - month) / 10 + 4900LL) / 100)) / 4
                 + day - 2399904);
             // validate day
             return validate_gregorian_day(year, month, day);
diff --git a/src/clyd.cc b/src/clyd.cc
index 36a07f8..7d90ebf 100644
--- a/src/clyd.cc
+++ b/src/clyd.cc
@@ -51,16 +51,16 @@ G2JStatus clyd(int year, int month, int day, int& jyear, int& jday) {
         if (month >= 1 && month <= 12) {
             // perform the conversion
             int i = (14 - month) / 12;
-            int k = year - i;
-            int j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
+            long long k = year - i;
+            long long j = (1461 * (k + 4800)) / 4 + (367 * (month - 2 + 12 * i)) / 12 -
                     (3 * ((k + 4900) / 100)) / 4 + day - 30660;
             k = (j - 1) / 1461;
-            const int L = j - 1461 * k;
+            const int L = int(j - 1461 * k);
             const int N = (L - 1) / 365 - L / 1461;
             j = ((80 * (L - 365 * N + 30)) / 2447) / 11;
-            i = N + j;
-            jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - j);
-            jyear = 4 * k + i - 4716;
+            i = N + (int) j;
+            jday = 59 + L - 365 * i + ((4 - N) / 4) * (1 - (int) j);
+            jyear = int(4 * k + i - 4716);
 
             // validate day
             return validate_gregorian_day(year, month, day);
diff --git a/src/djcal.cc b/src/djcal.cc
index e891a62..ce657e4 100644
--- a/src/djcal.cc
+++ b/src/djcal.cc
@@ -56,12 +56,12 @@ bool djcal(int ndp, double mjd, Date& date) {
         const double d = (df - f) / fd;
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001LL;
 
-        const int n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((2 * ((4 * jd - 17918) / 146097) * 3) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461 - 4712);
         date.d_month =  ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_ifraction = f_nint(f);
diff --git a/src/djcl.cc b/src/djcl.cc
index 2482bf1..47a6ffb 100644
--- a/src/djcl.cc
+++ b/src/djcl.cc
@@ -46,12 +46,12 @@ bool djcl(double mjd, Date& date) {
         const double d = f_anint(mjd - f);
 
         // express day in Gregorian calendar.
-        const int jd = f_nint(d) + 2400001;
+        const long long jd = f_nint(d) + 2400001LL;
 
-        const int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
-        const int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
+        const long long n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
+        const int nd10 = 10 * (int) (((n4 - 237) % 1461) / 4) + 5;
 
-        date.d_year = n4 / 1461 - 4712;
+        date.d_year = (int) (n4 / 1461 - 4712);
         date.d_month = ((nd10 / 306 + 2) % 12) + 1;
         date.d_day = (nd10 % 306) / 10 + 1;
         date.d_fraction = f;
-- 
2.43.0


From ad83b64f92186f4f2434a27ed2b5dc594f2b9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:00 +0000
Subject: [PATCH 4/6] fix: svd() loses off-diagonal terms when a singular value
 is cancelled

The cancellation step must scale ws[i] by the current cosine (EISPACK SVD);
without it, matrices with a null leading column give factors whose product
is not the input matrix.
---
 src/svd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/svd.cc b/src/svd.cc
index 49bc8d2..b24a048 100644
--- a/src/svd.cc
+++ b/src/svd.cc
@@ -273,9 +273,11 @@ int svd(int m, int n, int mp, int np, double* a, double* w, double* v, double* w
 
                 // Cancellation of ws[l] if l>1
                 if (cancel) {
+                    c = 0.0;
                     s = 1.0;
                     for (i = l; i <= k; i++) {
                         f = s * ws[i];
+                        ws[i] *= c;
                         if (an + std::fabs(f) == an) {
                             break;
                         }
-- 
2.43.0


From 2b81de1e1be453ff6bdce3052d32b36bb764530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:49 +0000
Subject: [PATCH 5/6] fix: wait() rounded the delay to whole seconds, so delays
 below half a second did not wait at all

---
 src/wait.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wait.cc b/src/wait.cc
index 844d679..669d8fd 100644
--- a/src/wait.cc
+++ b/src/wait.cc
@@ -16,7 +16,6 @@
  *
  */
 #include "slalib.h"
-#include "f77_utils.h"
 
 #include <thread>
 #include <chrono>
@@ -29,7 +28,7 @@ namespace sla {
  * @param seconds Delay (seconds).
  */
 void wait(float seconds) {
-    std::this_thread::sleep_for(std::chrono::seconds(f_nint(seconds)));
+    std::this_thread::sleep_for(std::chrono::duration<double>(seconds));
 }
 
 }
-- 
2.43.0


From 01464df0d51c26b59d2840bc83b700865325ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:47 +0000
Subject: [PATCH 6/6] fix: pda2h, pdq2h: judge a solution by the angle it
 gives, not by the sign of a rounded hour angle

---
 src/pda2h.cc | 11 ++++++++---
 src/pdq2h.cc | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pda2h.cc b/src/pda2h.cc
index 92ddb1b..e716a2c 100644
--- a/src/pda2h.cc
+++ b/src/pda2h.cc
@@ -80,9 +80,14 @@ void pda2h(double lat, double dec, double azimuth, double& ha1, bool& ha1_valid,
         ha1 = drange(hpt - t);
         ha2 = drange(-hpt - (t + PI));
 
-        // reject unless h and azimuth different signs
-        ha1_valid = ha1 * an <= 0.0;
-        ha2_valid = ha2 * an <= 0.0;
+        // reject if the star's azimuth at h is the opposite one (the sign of h alone cannot
+        // tell: it is lost to rounding when the star transits close to the zenith)
+        const auto has_azimuth = [&](double h) {
+            const double x = std::sin(dn) * std::cos(pn) - std::cos(dn) * std::sin(pn) * std::cos(h);
+            return x * cos_an - std::cos(dn) * std::sin(h) * sin_an >= 0.0;
+        };
+        ha1_valid = has_azimuth(ha1);
+        ha2_valid = has_azimuth(ha2);
     } else {
         ha1_valid = ha2_valid = false;
     }
diff --git a/src/pdq2h.cc b/src/pdq2h.cc
index aa4e829..937e0bf 100644
--- a/src/pdq2h.cc
+++ b/src/pdq2h.cc
@@ -77,9 +77,14 @@ void pdq2h(double lat, double dec, double pa, double& ha1, bool& ha1_valid, doub
         ha1 = drange(hpt - t);
         ha2 = drange(-hpt - (t + PI));
 
-        // reject if h and pa have different signs
-        ha1_valid = ha1 * qn >= 0.0;
-        ha2_valid = ha2 * qn >= 0.0;
+        // reject if the star's parallactic angle at h is the opposite one (the sign of h alone
+        // cannot tell: it is lost to rounding when the star transits close to the zenith)
+        const auto has_angle = [&](double h) {
+            const double x = std::sin(pn) * std::cos(dn) - std::cos(pn) * std::sin(dn) * std::cos(h);
+            return x * cos_qn + std::cos(pn) * std::sin(h) * sin_qn >= 0.0;
+        };
+        ha1_valid = has_angle(ha1);
+        ha2_valid = has_angle(ha2);
     } else {
         ha1_valid = ha2_valid = false;
     }
-- 
2.43.0

