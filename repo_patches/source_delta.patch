From fb2b4b43207578722c6dfa5c183ec381babd6da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 01/42] fix: lensing-Doppler1 cross term uses the magnification
 and G of the right population

The second half of the d1-len term (population 2 at z2, lensing of population 1)
used s2 and G1; exchanging the two populations changed the correlation.
---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 464dcaa..f6fbd42 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -2559,8 +2559,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2643,7 +2643,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2697,8 +2697,8 @@ double functions_single_integrated(
                             chi1
                            *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                            *coffe_interp_spline(&bg->f, z2_const)
-                           *coffe_interp_spline(&bg->G1, z2_const)
-                           *(2 - 5 * s2)
+                           *coffe_interp_spline(&bg->G2, z2_const)
+                           *(2 - 5 * s1)
                             /* integrand */
                            *(1 - x)
                            /coffe_interp_spline(&bg->a, z1)
@@ -2773,7 +2773,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2860,8 +2860,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2906,7 +2906,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
@@ -2950,8 +2950,8 @@ double functions_single_integrated(
                         chi1
                        *coffe_interp_spline(&bg->conformal_Hz, z2_const)
                        *coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)
-                       *(2 - 5 * s2)
+                       *coffe_interp_spline(&bg->G2, z2_const)
+                       *(2 - 5 * s1)
                         /* integrand */
                        *(1 - x)
                        /coffe_interp_spline(&bg->a, z1)
@@ -2987,7 +2987,7 @@ double functions_single_integrated(
                         )
                         +
                         chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
-                       *coffe_interp_spline(&bg->G1, z2_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z2_const)
+                       *coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                         /* integrand */
                        *(1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                        *(
-- 
2.43.0


From a51f112ac615379de2bd67cbaabb4496cd0d99f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 02/42] fix: density-g5 term divides by the scale factor like
 every other g5 term

---
 src/functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index f6fbd42..379dd94 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3151,13 +3151,13 @@ double functions_single_integrated(
                 chi2*b1*coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
-               *coffe_interp_spline(&bg->D1, z2)*coffe_interp_spline(&bg->a, z2)
+               *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
                 chi1*b2*coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                 /* integrand */
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
-               *coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->a, z1)
+               *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
                *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
     }
-- 
2.43.0


From bd1618c194be9922b2064a8d1ce22f04b7a9e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 03/42] fix: g5-lensing term uses (f - 1) as the source of the
 integrated Sachs-Wolfe effect

---
 src/functions.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 379dd94..09a2445 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3927,7 +3927,7 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3936,7 +3936,7 @@ double functions_double_integrated(
                     )
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *(
@@ -3950,13 +3950,13 @@ double functions_double_integrated(
                 9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/2.
                *(
                     (2 - 5*s2)*coffe_interp_spline(&bg->G1, z1_const)*chi1
-                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->conformal_Hz, z1) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                    *(1 - x2)/x2*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
                     +
                     (2 - 5*s1)*coffe_interp_spline(&bg->G2, z2_const)*chi2
-                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->conformal_Hz, z2) - 1)
+                   *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                    *(1 - x1)/x1*coffe_interp_spline(&bg->D1, z1)*coffe_interp_spline(&bg->D1, z2)
                    /coffe_interp_spline(&bg->a, z1)/coffe_interp_spline(&bg->a, z2)
                    *2*lambda1*lambda2*coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)
-- 
2.43.0


From a7403bb5e6367dc8261b8a259b8027fce9583475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 04/42] fix: g1/g2/g3-lensing terms include 1/a of the local
 potential

---
 src/functions.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index 09a2445..de9f8ff 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3038,7 +3038,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(1 + coffe_interp_spline(&bg->G1, z1_const))*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3048,7 +3048,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(1 + coffe_interp_spline(&bg->G2, z2_const))*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3068,7 +3068,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(5*s1 - 2)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3078,7 +3078,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(5*s2 - 2)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
@@ -3098,7 +3098,7 @@ double functions_single_integrated(
             /* constant in front */
             9*(par->Omega0_cdm + par->Omega0_baryon)*(par->Omega0_cdm + par->Omega0_baryon)/4.
            *(
-                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                chi2*(coffe_interp_spline(&bg->f, z1_const) - 1)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)/coffe_interp_spline(&bg->a, z1_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)
@@ -3108,7 +3108,7 @@ double functions_single_integrated(
                     )
                 )
                 +
-                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                chi1*(coffe_interp_spline(&bg->f, z2_const) - 1)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)/coffe_interp_spline(&bg->a, z2_const)
                *(
                     /* integrand */
                     (1 - x)*coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)
-- 
2.43.0


From 84cc919ee13c4bb1800b99cb4bb954fb40ea33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 05/42] fix: Doppler1 cross terms with d2 and the potential
 terms carry the Doppler prefactor G

---
 src/functions.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index de9f8ff..bc25636 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -1222,9 +1222,9 @@ double functions_nonintegrated(
         par->correlation_contrib.d2
     ){
         result += -(
-                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*f2*(chi2*costheta - chi1)
+                (3 - fevo2)*curlyH1*pow(curlyH2, 2)*f1*G1*f2*(chi2*costheta - chi1)
                 +
-                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*f1*(chi1*costheta - chi2)
+                (3 - fevo1)*curlyH2*pow(curlyH1, 2)*f2*G2*f1*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep);
     }
@@ -1234,9 +1234,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g1
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(1 + G2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(1 + G2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(1 + G1)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(1 + G1)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1246,9 +1246,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g2
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(5*s2 - 2)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(5*s2 - 2)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(5*s1 - 2)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(5*s1 - 2)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -1258,9 +1258,9 @@ double functions_nonintegrated(
         par->correlation_contrib.g3
     ){
         result += pow(COFFE_H0 * par->h, 2) * ((
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*(f2 - 1.)*(chi2*costheta - chi1)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a2*curlyH1*f1*G1*(f2 - 1.)*(chi2*costheta - chi1)
                 +
-                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*(f1 - 1.)*(chi1*costheta - chi2)
+                3*(par->Omega0_cdm + par->Omega0_baryon)/2./a1*curlyH2*f2*G2*(f1 - 1.)*(chi1*costheta - chi2)
             )
            *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sep));
     }
@@ -3225,11 +3225,11 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
+                coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)*(2 - 5*s2)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
+                coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)*(2 - 5*s1)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r22))
             ));
@@ -3242,13 +3242,13 @@ double functions_single_integrated(
         result += pow(COFFE_H0 * par->h, 2)*(
             3*(par->Omega0_cdm + par->Omega0_baryon)
            *(
-                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)
+                chi2*coffe_interp_spline(&bg->conformal_Hz, z1_const)*coffe_interp_spline(&bg->f, z1_const)*coffe_interp_spline(&bg->G1, z1_const)
                *coffe_interp_spline(&bg->G2, z2_const)*coffe_interp_spline(&bg->D1, z1_const)
                *coffe_interp_spline(&bg->conformal_Hz, z2)*(coffe_interp_spline(&bg->f, z2) - 1)
                *coffe_interp_spline(&bg->D1, z2)/coffe_interp_spline(&bg->a, z2)*(lambda2*costheta - chi1)
                *coffe_interp_spline(&coffe_find_integral(integral, 3, 1, COFFE_INTEGER, COFFE_INTEGER)->result, sqrt(r21))
                +
-                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)
+                chi1*coffe_interp_spline(&bg->conformal_Hz, z2_const)*coffe_interp_spline(&bg->f, z2_const)*coffe_interp_spline(&bg->G2, z2_const)
                *coffe_interp_spline(&bg->G1, z1_const)*coffe_interp_spline(&bg->D1, z2_const)
                *coffe_interp_spline(&bg->conformal_Hz, z1)*(coffe_interp_spline(&bg->f, z1) - 1)
                *coffe_interp_spline(&bg->D1, z1)/coffe_interp_spline(&bg->a, z1)*(lambda1*costheta - chi2)
-- 
2.43.0


From 8af9cc6c373c33d0bf6bec26d4dd7c7b06450822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 06/42] fix: lensing-lensing at coinciding points uses the
 limit of the regular formula

The constant term of the degenerate branch was a bare 4 instead of
4/3 times the I(2,0) integral.
---
 src/functions.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/functions.c b/src/functions.c
index bc25636..6f480f7 100644
--- a/src/functions.c
+++ b/src/functions.c
@@ -3792,7 +3792,19 @@ double functions_double_integrated(
                    *(1 - x1)
                    *(1 - x2)
                    *(
-                       4.
+                       4
+                      *coffe_interp_spline2d(
+                           &coffe_find_integral(
+                               integral,
+                               2,
+                               0,
+                               COFFE_INTEGER,
+                               COFFE_INTEGER
+                           )->result2d,
+                           (z1 + z2) / 2.,
+                           sqrt(r2)
+                       )
+                      /3.
                        +
                         24. * lambda1 * lambda2
                        *coffe_interp_spline2d(
@@ -3826,7 +3838,8 @@ double functions_double_integrated(
                    *(1 - x1)
                    *(1 - x2)
                    *(
-                       4.
+                       4
+                      *coffe_interp_spline(&coffe_find_integral(integral, 2, 0, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)/3.
                        +
                         24. * lambda1 * lambda2
                        *coffe_interp_spline(&coffe_find_integral(integral, 1, 1, COFFE_INTEGER, COFFE_INTEGER)->result, 0.0)/15.
-- 
2.43.0


From 02f545fa4279ba9870300a9c741fc9e14d90d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 07/42] fix: changing coordinates or biases discards every
 result computed from them

---
 python/coffe/coffe.pyx | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2dc8a57..210b65a 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1583,6 +1583,9 @@ cdef class Coffe:
             self._parameters.sep[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     @property
@@ -1744,6 +1747,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias2(self, z : float):
@@ -1777,6 +1783,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias3(self, z : float):
@@ -1799,6 +1808,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def galaxy_bias4(self, z : float):
@@ -1821,6 +1833,9 @@ cdef class Coffe:
         )
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def magnification_bias1(self, z : float):
@@ -1852,8 +1867,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def magnification_bias2(self, z : float):
@@ -1885,8 +1902,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias1(self, z : float):
@@ -1906,8 +1925,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     def evolution_bias2(self, z : float):
@@ -1927,8 +1948,10 @@ cdef class Coffe:
             x_sampling, y_sampling,
             self._parameters.interp_method
         )
+        self._free_background()
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
 
 
     @property
@@ -1965,6 +1988,7 @@ cdef class Coffe:
         for i in range(self._parameters.multipole_values_len):
             self._parameters.multipole_values[i] = temp[i]
         # we need to free the integrals since the flat-sky ones may depend on them
+        self._free_integrals()
         self._free_multipoles()
         self._free_average_multipoles()
         self._free_covariance_multipoles()
@@ -2004,6 +2028,7 @@ cdef class Coffe:
         self._parameters.z_mean = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.z_mean_len):
             self._parameters.z_mean[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
@@ -2042,6 +2067,7 @@ cdef class Coffe:
             self._parameters.zmin[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2080,6 +2106,7 @@ cdef class Coffe:
             self._parameters.zmax[i] = temp[i]
         self._free_corrfunc()
         self._free_multipoles()
+        self._free_average_multipoles()
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
 
@@ -2430,6 +2457,7 @@ cdef class Coffe:
         self._parameters.deltaz = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.deltaz_len):
             self._parameters.deltaz[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_covariance_multipoles()
-- 
2.43.0


From 5ed9de8371402fd4ca98074c68b58fa3f9be2074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 08/42] fix: integrals_fftlog_sampling can be assigned

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 210b65a..480e2bf 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1653,7 +1653,7 @@ cdef class Coffe:
             1000000,
         )
 
-        self._parameter.bessel_bins = int(value)
+        self._parameters.bessel_bins = int(value)
         self._free_except_parameters()
 
 
-- 
2.43.0


From 3e6dbfa980e77abe0bb1ef90f06950a82f1f5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 09/42] fix: set_power_spectrum_linear discards results
 computed from the previous power spectrum

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 480e2bf..6db4cbf 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3021,6 +3021,11 @@ cdef class Coffe:
         free(y_norm)
 
         self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
+        self._free_covariance_multipoles()
+        self._free_average_covariance_multipoles()
 
 
     def comoving_distance(self, z : float):
-- 
2.43.0


From 02cc2dd62bd2a0316c489266daaa2f57eb22f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 10/42] fix: contributions which need the divergent integral
 recompute integrals that lack it

---
 python/coffe/coffe.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 6db4cbf..9ec1e05 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1105,8 +1105,13 @@ cdef class Coffe:
                 "'has_d1', 'has_d2', 'has_g1', 'has_g2', 'has_g3', "
                 "'has_g4', 'has_g5'"
             )
-        if any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5]):
+        if (
+            any([self.has_d2, self.has_g1, self.has_g2, self.has_g3, self.has_g4, self.has_g5])
+            and not self._parameters.divergent
+        ):
             self._parameters.divergent = 1
+            # integrals computed before lack the divergent one
+            self._free_integrals()
 
 
     def _balance_content(self):
-- 
2.43.0


From 42775ff7f2a468a2953a0a67cccf6553f77e66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 11/42] fix: reading the parameters leaves the object unchanged

---
 python/coffe/coffe.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 9ec1e05..d3ba6d8 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1150,9 +1150,11 @@ cdef class Coffe:
             if key != 'parameters' and hasattr(getattr(self.__class__, key), '__set__')
         }
         writable = {}
+        # assigning frees computed results, so try it on another object
+        probe = Coffe()
         for key in properties:
             try:
-                setattr(self, key, getattr(self, key))
+                setattr(probe, key, getattr(probe, key))
                 writable[key] = getattr(self, key)
             except AttributeError:
                 pass
-- 
2.43.0


From fbab65a77b7a8f74055a3fdd91e9a444147bf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:15 +0000
Subject: [PATCH 12/42] fix: settings which do not enter the power spectrum
 keep one supplied by the user

---
 python/coffe/coffe.pyx | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index d3ba6d8..c1144e2 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -981,9 +981,8 @@ cdef class Coffe:
         ccoffe.coffe_average_covariance_free(&self._average_covariance_multipoles)
 
 
-    def _free_except_parameters(self):
+    def _free_except_power_spectrum(self):
         self._free_background()
-        self._free_power_spectrum()
         self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
@@ -992,6 +991,11 @@ cdef class Coffe:
         self._free_average_covariance_multipoles()
 
 
+    def _free_except_parameters(self):
+        self._free_except_power_spectrum()
+        self._free_power_spectrum()
+
+
     def __dealloc__(self):
         self._free_except_parameters()
         ccoffe.coffe_parameters_free(&self._parameters)
@@ -1661,7 +1665,7 @@ cdef class Coffe:
         )
 
         self._parameters.bessel_bins = int(value)
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     def integral(self, *, r : float, n : int, l : int):
@@ -2493,7 +2497,7 @@ cdef class Coffe:
         else:
             self._parameters.integration_1d_type = _invert_dict(_allowed_integration_1d_types)[value]
 
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2514,7 +2518,7 @@ cdef class Coffe:
             1,
         )
         self._parameters.integration_1d_prec = float(value)
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2551,7 +2555,7 @@ cdef class Coffe:
         _check_parameter('background_sampling', value, int, 0, self._max_size)
 
         self._parameters.background_bins = value
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2642,7 +2646,7 @@ cdef class Coffe:
     @has_d1.setter
     def has_d1(self, value : bool):
         self._parameters.correlation_contrib.d1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2656,7 +2660,7 @@ cdef class Coffe:
     @has_d2.setter
     def has_d2(self, value : bool):
         self._parameters.correlation_contrib.d2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2671,7 +2675,7 @@ cdef class Coffe:
     @has_g1.setter
     def has_g1(self, value : bool):
         self._parameters.correlation_contrib.g1 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2686,7 +2690,7 @@ cdef class Coffe:
     @has_g2.setter
     def has_g2(self, value : bool):
         self._parameters.correlation_contrib.g2 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2701,7 +2705,7 @@ cdef class Coffe:
     @has_g3.setter
     def has_g3(self, value : bool):
         self._parameters.correlation_contrib.g3 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2716,7 +2720,7 @@ cdef class Coffe:
     @has_g4.setter
     def has_g4(self, value : bool):
         self._parameters.correlation_contrib.g4 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     @property
@@ -2731,7 +2735,7 @@ cdef class Coffe:
     @has_g5.setter
     def has_g5(self, value : bool):
         self._parameters.correlation_contrib.g5 = int(bool(value))
-        self._free_except_parameters()
+        self._free_except_power_spectrum()
 
 
     def reset_contributions(self):
-- 
2.43.0


From a0e3d57b1474a5f1bfee850f361d616141302cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 13/42] fix: covariance_interpolation_method discards the
 integrals interpolated with it

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index c1144e2..771fbfe 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -2361,6 +2361,11 @@ cdef class Coffe:
             self._parameters.covariance_interpolation_method = _invert_dict(_allowed_interpolation_2d_methods)[value]
         self._free_covariance_multipoles()
         self._free_average_covariance_multipoles()
+        # the renormalization of the divergent integral is interpolated the same way
+        self._free_integrals()
+        self._free_corrfunc()
+        self._free_multipoles()
+        self._free_average_multipoles()
 
 
     @property
-- 
2.43.0


From 19718d9a69f62ca1f3a40b193bcf8507e39893b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 14/42] fix: renormalization of the divergent integral covers
 every distance the outputs need

---
 python/coffe/coffe.pyx |  2 ++
 src/integrals.c        | 39 ++++++++++++++++++++-------------------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 771fbfe..c416e7e 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1592,6 +1592,7 @@ cdef class Coffe:
         self._parameters.sep = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.sep_len):
             self._parameters.sep[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_average_multipoles()
@@ -2115,6 +2116,7 @@ cdef class Coffe:
         self._parameters.zmax = <double *> malloc(sizeof(double) * len(temp))
         for i in range(self._parameters.zmax_len):
             self._parameters.zmax[i] = temp[i]
+        self._free_integrals()
         self._free_corrfunc()
         self._free_multipoles()
         self._free_average_multipoles()
diff --git a/src/integrals.c b/src/integrals.c
index 27a0859..34947bc 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -853,29 +853,30 @@ int coffe_integrals_init(
                 sizeof(double) * (nbins + 1) * (nbins + 1)
             );
 
-            double chi_min = 0.;
+            const double chi_min = 0.;
+            /* the largest comoving distance at which any output evaluates this */
             double chi_max = 0.;
-            if (
-                par->output_type == CORRFUNC ||
-                par->output_type == MULTIPOLES
-            ){
-                /* dimensionless */
-                double *temp = (double *)coffe_malloc(sizeof(double) * par->z_mean_len);
-                for (size_t i = 0; i < par->z_mean_len; ++i)
-                    temp[i] = par->z_mean[i] + par->deltaz[i];
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(temp, par->z_mean_len)
+            const double half_sep = par->sep_len
+                ? coffe_max_array_double(par->sep, par->sep_len) / 2.
+                : 0.;
+            for (size_t i = 0; i < par->z_mean_len; ++i){
+                const double chi_mean = coffe_interp_spline(
+                    &bg->comoving_distance, par->z_mean[i]
                 );
-                free(temp);
+                chi_max = fmax(chi_max, chi_mean + half_sep);
+                if (i < par->deltaz_len)
+                    chi_max = fmax(
+                        chi_max,
+                        coffe_interp_spline(
+                            &bg->comoving_distance, par->z_mean[i] + par->deltaz[i]
+                        )
+                    );
             }
-            else if (par->output_type == AVERAGE_MULTIPOLES){
-                /* dimensionless */
-                chi_max = coffe_interp_spline(
-                    &bg->comoving_distance,
-                    coffe_max_array_double(par->zmax, par->zmax_len)
+            for (size_t i = 0; i < par->zmax_len; ++i)
+                chi_max = fmax(
+                    chi_max,
+                    coffe_interp_spline(&bg->comoving_distance, par->zmax[i])
                 );
-            }
             double *chi_array = (double *)coffe_malloc(
                 sizeof(double) * (nbins + 1)
             );
-- 
2.43.0


From 82d6b2a52e2b9cbb0720fab31dd1a94440d18a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 15/42] fix: omega_cdm keeps massive neutrinos in the total
 matter density

---
 python/coffe/coffe.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index c416e7e..f7b2dfb 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1194,7 +1194,7 @@ cdef class Coffe:
             # we set the value, rebalance the Omega budget, and free memory
             self._check_omegas(value, self.omega_baryon, self.omega_gamma, self.omega_nu)
             self._parameters.Omega0_cdm = value / self._coeff
-            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon
+            self._parameters.Omega0_m = self._parameters.Omega0_cdm + self._parameters.Omega0_baryon + self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From f18826902f14bb5046bdfb89572c7491ff0f9f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 16/42] fix: h must be positive and rescales the neutrino
 density of given masses

---
 python/coffe/coffe.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index f7b2dfb..2c1db28 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1286,9 +1286,14 @@ cdef class Coffe:
     @h.setter
     def h(self, value):
         _check_parameter('h', value, (int, float), 0, 100)
+        if not value > 0:
+            raise ValueError(f'The value of h must be positive, got {value}')
         if not np.allclose(value, self.h):
             # setting the old value equal to the new value of h
             self._parameters.h = value
+            # the neutrino masses are fixed, so big omega(nu) changes
+            self._parameters.Omega0_nu = self._parameters.m_ncdm / 93.14 / self.h / self.h
+            self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
             self._free_except_parameters()
 
-- 
2.43.0


From bb15830b44ab1369a0f0c972163792ac37ba5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:57 +0000
Subject: [PATCH 17/42] fix: functions which cannot be interpolated are
 rejected instead of aborting the process

---
 python/coffe/coffe.pyx | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2c1db28..3c1807b 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -155,6 +155,23 @@ cdef double evaluate_spline(
 
 
 
+def _check_sampling(x_sampling : List[float], y_sampling : List[float]):
+    """
+    Checks that a function can be interpolated from its samples
+    """
+    x = [float(_) for _ in x_sampling]
+    y = [float(_) for _ in y_sampling]
+    if len(x) != len(y):
+        raise ValueError(f'Mismatching lengths for x ({len(x)}) and y ({len(y)})')
+    # the interpolation (Akima) needs at least that many
+    if len(x) < 5:
+        raise ValueError(f'At least 5 points are necessary, got {len(x)}')
+    if not all(a < b for a, b in zip(x, x[1:])):
+        raise ValueError('The input array must be sorted and without duplicates')
+    return x, y
+
+
+
 cdef int set_spline(
     ccoffe.coffe_interpolation *interp,
     x_sampling : List[float],
@@ -166,12 +183,7 @@ cdef int set_spline(
     """
     Sets the value of the spline according to some x_sampling and y_sampling
     """
-    if not np.allclose(x_sampling, np.sort(x_sampling)):
-        raise ValueError('The input array must be sorted')
-    if len(x_sampling) != len(y_sampling):
-        raise ValueError(
-            f'Mismatching lengths for x ({len(x_sampling)}) and y ({len(y_sampling)})'
-        )
+    _check_sampling(x_sampling, y_sampling)
 
     _check_parameter('xmin', x_sampling[0], (int, float), xmin=xmin)
     _check_parameter('xmax', x_sampling[-1], (int, float), xmax=xmax)
@@ -3000,11 +3012,7 @@ cdef class Coffe:
         None
         """
         # value checking
-        if not np.allclose(k, np.sort(k)):
-            raise ValueError('The input k array must be sorted')
-
-        if len(k) != len(pk):
-            raise ValueError('The input arrays have mismatching lengths')
+        k, pk = _check_sampling(k, pk)
 
         # TODO error checking for z and rescaling if z > 0
 
-- 
2.43.0


From 7e51918f36302db978ad0038cd0efb4e79b4c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 18/42] fix: bias redshifts are the points at which the bias
 was sampled

---
 python/coffe/coffe.pyx | 58 +++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3c1807b..5be4e2d 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -139,6 +139,16 @@ cdef double get_spline_max(
 
 
 
+cdef list get_spline_x(
+    ccoffe.coffe_interpolation *interp,
+):
+    """
+    Returns the points at which the spline was sampled
+    """
+    return [dereference(interp.spline).x[i] for i in range(get_spline_size(interp))]
+
+
+
 cdef double evaluate_spline(
     ccoffe.coffe_interpolation *interp,
     const double x,
@@ -857,11 +867,7 @@ cdef class Coffe:
 
     def galaxy_bias1_redshifts(self):
         """Return the redshifts of the galaxy bias 1 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias1)
-        xmin = get_spline_min(&self._parameters.galaxy_bias1)
-        xmax = get_spline_max(&self._parameters.galaxy_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias1))
 
     def galaxy_bias1_values(self):
         """Return the values of the galaxy bias 1 spline."""
@@ -870,11 +876,7 @@ cdef class Coffe:
 
     def galaxy_bias2_redshifts(self):
         """Return the redshifts of the galaxy bias 2 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias2)
-        xmin = get_spline_min(&self._parameters.galaxy_bias2)
-        xmax = get_spline_max(&self._parameters.galaxy_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias2))
 
     def galaxy_bias2_values(self):
         """Return the values of the galaxy bias 2 spline."""
@@ -882,11 +884,7 @@ cdef class Coffe:
 
     def galaxy_bias3_redshifts(self):
         """Return the redshifts of the galaxy bias 3 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias3)
-        xmin = get_spline_min(&self._parameters.galaxy_bias3)
-        xmax = get_spline_max(&self._parameters.galaxy_bias3)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias3))
 
     def galaxy_bias3_values(self):
         """Return the values of the galaxy bias 3 spline."""
@@ -894,11 +892,7 @@ cdef class Coffe:
 
     def galaxy_bias4_redshifts(self):
         """Return the redshifts of the galaxy bias 4 spline."""
-        size = get_spline_size(&self._parameters.galaxy_bias4)
-        xmin = get_spline_min(&self._parameters.galaxy_bias4)
-        xmax = get_spline_max(&self._parameters.galaxy_bias4)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.galaxy_bias4))
 
     def galaxy_bias4_values(self):
         """Return the values of the galaxy bias 4 spline."""
@@ -907,11 +901,7 @@ cdef class Coffe:
 
     def magnification_bias1_redshifts(self):
         """Return the redshifts of the magnification bias 1 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias1)
-        xmin = get_spline_min(&self._parameters.magnification_bias1)
-        xmax = get_spline_max(&self._parameters.magnification_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.magnification_bias1))
 
     def magnification_bias1_values(self):
         """Return the values of the magnification bias 1 spline."""
@@ -920,11 +910,7 @@ cdef class Coffe:
 
     def magnification_bias2_redshifts(self):
         """Return the redshifts of the magnification bias 2 spline."""
-        size = get_spline_size(&self._parameters.magnification_bias2)
-        xmin = get_spline_min(&self._parameters.magnification_bias2)
-        xmax = get_spline_max(&self._parameters.magnification_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.magnification_bias2))
 
     def magnification_bias2_values(self):
         """Return the values of the magnification bias 2 spline."""
@@ -933,11 +919,7 @@ cdef class Coffe:
 
     def evolution_bias1_redshifts(self):
         """Return the redshifts of the evolution bias 1 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias1)
-        xmin = get_spline_min(&self._parameters.evolution_bias1)
-        xmax = get_spline_max(&self._parameters.evolution_bias1)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.evolution_bias1))
 
     def evolution_bias1_values(self):
         """Return the values of the evolution bias 1 spline."""
@@ -946,11 +928,7 @@ cdef class Coffe:
 
     def evolution_bias2_redshifts(self):
         """Return the redshifts of the evolution bias 2 spline."""
-        size = get_spline_size(&self._parameters.evolution_bias2)
-        xmin = get_spline_min(&self._parameters.evolution_bias2)
-        xmax = get_spline_max(&self._parameters.evolution_bias2)
-
-        return np.linspace(xmin, xmax, size)
+        return np.array(get_spline_x(&self._parameters.evolution_bias2))
 
     def evolution_bias2_values(self):
         """Return the values of the evolution bias 2 spline."""
-- 
2.43.0


From c8d48aa870e871719980b05a03afc85113d405a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 19/42] fix: from_file reads the empty lists to_file writes

---
 python/coffe/coffe.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 5be4e2d..91dec2c 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -65,13 +65,13 @@ class CoffeConfigParser(ConfigParser):
         """
         Converts the value of the option to a list of floats
         """
-        return [float(_) for _ in self.get(section, option).strip("[]").split(",")]
+        return [float(_) for _ in self.get(section, option).strip("[]").split(",") if _.strip()]
 
     def getint_array(self, section, option, *args, **kwargs):
         """
         Converts the value of the option to a list of ints
         """
-        return [int(_) for _ in self.get(section, option).strip("[]").split(",")]
+        return [int(_) for _ in self.get(section, option).strip("[]").split(",") if _.strip()]
 
     def getstr_array(self, section, option, *args, **kwargs):
         """
-- 
2.43.0


From 52be4b1dfbfdcf4dedac1a066bae1f6cd94db3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:12 +0000
Subject: [PATCH 20/42] fix: from_file reads every setting to_file writes

---
 python/coffe/coffe.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 91dec2c..2433998 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -678,7 +678,7 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getfloat_array(option))
 
-        options_int_array = ["l"]
+        options_int_array = ["l", "covariance_populations"]
         for option in options_int_array:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
@@ -696,12 +696,13 @@ cdef class Coffe:
             "A_s",
             "k_per_decade_for_bao",
             "k_per_decade_for_pk",
-            "start_large_k_at_tau_c_over_tau_h",
+            "start_large_k_at_tau_h_over_tau_k",
             "l_max_g",
             "l_max_ur",
             "tol_perturb_integration",
             "radiation_streaming_trigger_tau_over_tau_k",
             "ur_fluid_trigger_tau_over_tau_k",
+            "integration_1d_prec",
             "N_ur",
             "m_ncdm",
             "k_min",
@@ -719,9 +720,12 @@ cdef class Coffe:
             "has_d1",
             "has_d2",
             "has_g1",
+            "has_g2",
             "has_g3",
             "has_g4",
             "has_g5",
+            "has_only_cross_correlations",
+            "verbose",
             "integration_sampling",
             "background_sampling",
             "has_binned_covariance",
-- 
2.43.0


From cfd29c392d4a3566d384fbfe4a14e56f84311bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:24 +0000
Subject: [PATCH 21/42] fix: from_file accepts every set of densities that can
 be assigned, in any order

---
 python/coffe/coffe.pyx | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 2433998..fc3bd7b 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -683,13 +683,17 @@ cdef class Coffe:
             if option in config:
                 setattr(cosmo, option, config.getint_array(option))
 
-        options_float = {
+        # the densities are checked against each other, so their order matters
+        if "omega_gamma" in config:
+            cosmo.omega_gamma = 0.
+
+        options_float = [
+            "h",
             "omega_m",
             "omega_baryon",
             "omega_gamma",
             "w0",
             "wa",
-            "h",
             "sigma8",
             "n_s",
             "T_cmb",
@@ -708,7 +712,7 @@ cdef class Coffe:
             "k_min",
             "k_max",
             "YHe",
-        }
+        ]
         for option in options_float:
             if option in config:
                 setattr(cosmo, option, config.getfloat(option))
@@ -1235,7 +1239,8 @@ cdef class Coffe:
         _check_parameter('omega_baryon', value, (int, float), -100, 100)
         if not np.allclose(value, self.omega_baryon):
             # we set the value, rebalance the Omega budget, and free memory
-            self._check_omegas(value, self.omega_cdm, self.omega_gamma)
+            # the total matter density stays as it is
+            self._check_omegas(value, self.omega_gamma)
             self._parameters.Omega0_baryon = value / self._coeff
             self._parameters.Omega0_cdm = self._parameters.Omega0_m - self._parameters.Omega0_baryon - self._parameters.Omega0_nu
             self._balance_content()
-- 
2.43.0


From fa9c0a5084b412cfb3811a279252babe9367f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:52 +0000
Subject: [PATCH 22/42] fix: covariance averaged over separation bins uses the
 bin width of each redshift bin

---
 src/covariance.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 467f176..3bf06e4 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -522,9 +522,13 @@ int coffe_covariance_init(
         double *separations = (double *)coffe_malloc(sizeof(double) * par->sep_len);
         for (size_t i = 0; i < par->sep_len; ++i)
             separations[i] = par->sep[i];
+        const size_t redshift_bins =
+            par->output_type == COVARIANCE_MULTIPOLES ? par->z_mean_len : par->zmin_len;
+        /* the integrals differ between redshift bins if the power spectrum or the bin width does */
+        const int integrals_per_bin = par->pk_type || par->covariance_window;
         const size_t redshifts_to_allocate =
             /* trigraph */
-            par->pk_type ? par->z_mean_len : 1;
+            integrals_per_bin ? redshift_bins : 1;
         /* allocating memory for the integrals of P(k) and P^2(k) (D_l1l2 and G_l1l2) */
         /* why triple pointers, you ask? First index is redshift, second is multipole, third are separations */
         double ***integral_pk =
@@ -996,7 +1000,7 @@ int coffe_covariance_init(
                        *(par->pk_type ? 1 : D1z * D1z)
                         /* trigraph */
                        *(
-                            par->pk_type
+                            integrals_per_bin
                             ?
                             integral_pk[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
@@ -1013,7 +1017,7 @@ int coffe_covariance_init(
                         /* TODO fix this abomination */
                         /* trigraph */
                        *(
-                            par->pk_type
+                            integrals_per_bin
                             ?
                             integral_pk2[k][i*par->multipole_values_len + j][par->sep_len*n + m]
                             :
-- 
2.43.0


From 8f11e5080dc8b1086a94d57515f347134a40a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 23/42] fix: covariance of odd multipoles carries the parity of
 the exchanged pair

---
 src/covariance.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/covariance.c b/src/covariance.c
index 3bf06e4..8291007 100644
--- a/src/covariance.c
+++ b/src/covariance.c
@@ -885,7 +885,7 @@ int coffe_covariance_init(
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l2)
                             +
-                            coffe_sign(cnt_l2)
+                            coffe_sign(l2)
                            *covariance_coefficient_pair(par->covariance_pop1,
                                par->covariance_pop4, galaxy_bias, growth_rate,
                                cnt_l1)
@@ -919,7 +919,8 @@ int coffe_covariance_init(
                             )
                            /par->density1[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop1,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop1,
                                 par->covariance_pop4, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
@@ -928,7 +929,8 @@ int coffe_covariance_init(
                             )
                            /par->density2[k]
                             +
-                            covariance_coefficient_pair(par->covariance_pop2,
+                            coffe_sign(l2)
+                           *covariance_coefficient_pair(par->covariance_pop2,
                                 par->covariance_pop3, galaxy_bias, growth_rate,
                                 cnt)
                            *coffe_kronecker_delta(
-- 
2.43.0


From 47169e29751028acac21f9b32a6fcec63f4e81fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 24/42] fix: redshift-averaged multipoles reject z_min and
 z_max of different lengths

---
 python/coffe/coffe.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index fc3bd7b..3b0ebd6 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -1084,6 +1084,10 @@ cdef class Coffe:
             raise ValueError(
                 f'At least one of the following parameters is empty: l ({self.l}), sep ({self.sep}), z_min ({self.z_min}), z_max ({self.z_max})'
             )
+        if len(self.z_min) != len(self.z_max):
+            raise ValueError(
+                f'Mismatching lengths of z_min ({self.z_min}) and z_max ({self.z_max})'
+            )
 
 
     def _check_contributions(self):
-- 
2.43.0


From ac973bbcae33941d8f2398b11acd34a4b230a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:02 +0000
Subject: [PATCH 25/42] fix: plane-parallel lensing multipoles can be computed
 for orders which are not listed

---
 src/integrals.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/integrals.c b/src/integrals.c
index 34947bc..448d2de 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -573,6 +573,26 @@ int coffe_integrals_renormalizable(
 }
 
 
+/**
+    largest multipole which can be requested: any one up to COFFE_MAX_MULTIPOLE
+    can be computed individually, even if it's not in the list of multipoles
+**/
+
+#define COFFE_MAX_MULTIPOLE 9
+
+static int integrals_max_multipole(
+    const coffe_parameters_t *par
+)
+{
+    int result = COFFE_MAX_MULTIPOLE;
+    for (size_t i = 0; i < par->multipole_values_len; ++i){
+        if (par->multipole_values[i] > result)
+            result = par->multipole_values[i];
+    }
+    return result;
+}
+
+
 /**
     computes all the nonzero I^n_l integrals
 **/
@@ -1087,8 +1107,8 @@ int coffe_integrals_init(
             par->flatsky_nonlocal &&
             par->output_type == MULTIPOLES
         ){
-            for (size_t i = 0; i < par->multipole_values_len; ++i){
-                const int l = par->multipole_values[i];
+            /* the odd ones are zero by construction */
+            for (int l = 0; l <= integrals_max_multipole(par); l += 2){
 
                 const size_t current_index = integral->size;
                 /* alloc the space */
@@ -1251,9 +1271,8 @@ int coffe_integrals_init(
             par->flatsky_local_nonlocal &&
             par->output_type == MULTIPOLES
         ){
-            for (size_t i = 0; i < par->multipole_values_len; ++i){
-                const int l = par->multipole_values[i];
-                for (size_t k = 0; k <= (size_t)l / 2; ++k){
+            /* the multipole l needs those of all even multipoles up to it */
+            for (int l = 0; l <= integrals_max_multipole(par); l += 2){
 
                     const size_t current_index = integral->size;
                     /* alloc the space */
@@ -1266,8 +1285,8 @@ int coffe_integrals_init(
                         );
 
                     coffe_integral_new(&integral->array[current_index]);
-                    integral->array[current_index].n = l - 2 * k + 3;
-                    integral->array[current_index].l = l - 2 * k + 1;
+                    integral->array[current_index].n = l + 3;
+                    integral->array[current_index].l = l + 1;
                     integral->array[current_index].state_n = COFFE_HALF_INTEGER;
                     integral->array[current_index].state_l = COFFE_HALF_INTEGER;
 
@@ -1409,7 +1428,6 @@ int coffe_integrals_init(
 #endif
 
                     integral->size += 1;
-                }
             }
         }
 
-- 
2.43.0


From 2a9acae840b06869ac0715f0523d605f4d089bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:02 +0000
Subject: [PATCH 26/42] fix: renormalization at coinciding points is not
 multiplied by the fourth power of the distance

---
 src/integrals.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/integrals.c b/src/integrals.c
index 448d2de..6294243 100644
--- a/src/integrals.c
+++ b/src/integrals.c
@@ -834,8 +834,8 @@ int coffe_integrals_init(
                 result0[i] = integrals_integrate_function(
                     &integrals_renormalization0_integrand,
                     &par->power_spectrum_norm,
-                    /* n and l don't matter in this case */
-                    4,
+                    /* equal n and l so that it's not multiplied by a power of the separation */
+                    0,
                     0,
                     COFFE_INTEGER,
                     COFFE_INTEGER,
-- 
2.43.0


From 096b8889150f41396df8f9b8bc494a6d08ac8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:15 +0000
Subject: [PATCH 27/42] fix: plane-parallel lensing terms enter the correlation
 function and the averaged multipoles

---
 python/coffe/coffe.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/python/coffe/coffe.pyx b/python/coffe/coffe.pyx
index 3b0ebd6..72883be 100644
--- a/python/coffe/coffe.pyx
+++ b/python/coffe/coffe.pyx
@@ -3257,6 +3257,10 @@ cdef class Coffe:
         cdef ccoffe.gsl_error_handler_t *default_handler = \
             ccoffe.gsl_set_error_handler_off()
 
+        # the plane-parallel terms depend on the kind of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
+
         result = ccoffe.coffe_integrate(
             &self._parameters,
             &self._background,
@@ -3279,6 +3283,8 @@ cdef class Coffe:
             ccoffe.DOUBLE_INTEGRATED, ccoffe.CORRFUNC
         )
 
+        self._parameters.output_type = temp
+
         ccoffe.gsl_set_error_handler(default_handler)
 
         return result
@@ -3608,12 +3614,16 @@ cdef class Coffe:
         )
 
     def _corrfunc_init(self):
+        # the plane-parallel terms depend on the kind of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.CORRFUNC
         ccoffe.coffe_corrfunc_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._corrfunc
         )
+        self._parameters.output_type = temp
 
     def _multipoles_init(self):
         ccoffe.coffe_multipoles_init(
@@ -3624,12 +3634,16 @@ cdef class Coffe:
         )
 
     def _average_multipoles_init(self):
+        # the plane-parallel terms depend on the kind of output
+        temp = self._parameters.output_type
+        self._parameters.output_type = ccoffe.AVERAGE_MULTIPOLES
         ccoffe.coffe_average_multipoles_init(
             &self._parameters,
             &self._background,
             &self._integral,
             &self._average_multipoles
         )
+        self._parameters.output_type = temp
 
     def _covariance_init(self):
         ccoffe.coffe_covariance_init(
-- 
2.43.0


From 2f763357fdcbfe0b439b213336c06b41fd19e853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 28/42] fix: threads do not share the lookup cache of an
 interpolation

---
 src/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 5ab3058..947023f 100644
--- a/src/common.c
+++ b/src/common.c
@@ -706,7 +706,9 @@ double coffe_interp_spline(
     double value
 )
 {
-    return gsl_spline_eval(interp->spline, value, interp->accel);
+    /* no accelerator, since it is modified by every evaluation,
+       and the interpolation is shared by all of the threads */
+    return gsl_spline_eval(interp->spline, value, NULL);
 }
 
 double coffe_interp_spline2d(
@@ -715,7 +717,7 @@ double coffe_interp_spline2d(
     const double value2
 )
 {
-    return gsl_spline2d_eval(interp->spline, value1, value2, interp->xaccel, interp->yaccel);
+    return gsl_spline2d_eval(interp->spline, value1, value2, NULL, NULL);
 }
 
 int coffe_parameters_free(
-- 
2.43.0


From 6e5b0271107e05de6c3abb24c9506cd1ef4e6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:37 +0000
Subject: [PATCH 29/42] fix: generators of random numbers are set up by one
 thread at a time

---
 src/common.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 947023f..c47273c 100644
--- a/src/common.c
+++ b/src/common.c
@@ -1126,9 +1126,13 @@ double coffe_integrate_multidimensional(
     integrand.f = func;
     integrand.dim = dims;
     integrand.params = (void *)parameters;
-    gsl_rng_env_setup();
-    const gsl_rng_type *rng = gsl_rng_default;
-    gsl_rng *random = gsl_rng_alloc(rng);
+    gsl_rng *random;
+    /* the defaults of GSL are global variables, and we can be in a parallel region */
+    #pragma omp critical
+    {
+        gsl_rng_env_setup();
+        random = gsl_rng_alloc(gsl_rng_default);
+    }
     double lower[dims];
     double upper[dims];
     double error;
-- 
2.43.0


From 1be746507e0de09cc77bdf644e090c90c16c6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:26 +0000
Subject: [PATCH 30/42] fix: results of an earlier run no longer stay in the
 output files

The files of the correlation function, of the multipoles and of the covariance
were opened for appending: repeating a run with the same prefix mixed old and
new results, although the documentation says previous results are overwritten.
---
 src/output.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output.c b/src/output.c
index 6623d99..f0bc867 100644
--- a/src/output.c
+++ b/src/output.c
@@ -116,7 +116,7 @@ static int output_corrfunc(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, sep, mu, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
+    FILE *data = fopen(filepath, "w");
     fprintf(data, header);
 
     for (size_t i = 0; i < cf->size; ++i){
@@ -149,7 +149,7 @@ static int output_multipoles(
     strncat(header, "\n", COFFE_MAX_STRLEN);
     strncat(header, "# z_mean, l, sep, value\n", COFFE_MAX_STRLEN);
 
-    FILE *data = fopen(filepath, "a");
+    FILE *data = fopen(filepath, "w");
     fprintf(data, header);
 
     for (size_t i = 0; i < mp->size; ++i){
@@ -175,7 +175,7 @@ static int output_covariance(
 )
 {
     char header[COFFE_MAX_STRLEN];
-    FILE *output = fopen(filepath, "a");
+    FILE *output = fopen(filepath, "w");
     snprintf(
         header, COFFE_MAX_STRLEN,
         "# correlation contributions: "
-- 
2.43.0


From 61b39e6f0d040d1f95674006155c6b83dab13b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:26 +0000
Subject: [PATCH 31/42] fix: write the redshift averaged multipoles to a file

With output_type 3 the program computed the average multipoles and then
discarded them: coffe_output_init had no branch for them.
---
 src/output.c | 41 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/output.c b/src/output.c
index f0bc867..a5a018b 100644
--- a/src/output.c
+++ b/src/output.c
@@ -168,6 +168,41 @@ static int output_multipoles(
 }
 
 
+static int output_average_multipoles(
+    const char *filepath,
+    const struct coffe_correlation_contributions cc,
+    const coffe_average_multipoles_array_t *ramp
+)
+{
+    char header[COFFE_MAX_STRLEN];
+    snprintf(
+        header, COFFE_MAX_STRLEN,
+        "# correlation contributions: "
+    );
+    output_correlation_contributions_header(cc, header);
+    strncat(header, "\n", COFFE_MAX_STRLEN);
+    strncat(header, "# z_min, z_max, l, sep, value\n", COFFE_MAX_STRLEN);
+
+    FILE *data = fopen(filepath, "w");
+    fprintf(data, header);
+
+    for (size_t i = 0; i < ramp->size; ++i){
+        fprintf(
+            data,
+            "%.10e %.10e %d %.10e %.10e\n",
+            ramp->array[i].coords.z_min,
+            ramp->array[i].coords.z_max,
+            ramp->array[i].coords.l,
+            ramp->array[i].coords.separation,
+            ramp->array[i].value
+        );
+    }
+    fclose(data);
+
+    return EXIT_SUCCESS;
+}
+
+
 static int output_covariance(
     const char *filepath,
     const struct coffe_correlation_contributions cc,
@@ -372,6 +407,12 @@ int coffe_output_init(
         output_multipoles(filepath, par->correlation_contrib, mp);
     }
 
+    /* redshift averaged multipoles */
+    else if (par->output_type == AVERAGE_MULTIPOLES){
+        snprintf(filepath, COFFE_MAX_STRLEN, "%saverage_multipoles.dat", prefix);
+        output_average_multipoles(filepath, par->correlation_contrib, ramp);
+    }
+
     /* covariance of multipoles */
     else if (par->output_type == COVARIANCE_MULTIPOLES){
         snprintf(filepath, COFFE_MAX_STRLEN, "%scovariance_multipoles.dat", prefix);
-- 
2.43.0


From cb25da8965ce17164664934abb3f878bd076fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:26 +0000
Subject: [PATCH 32/42] fix: header of the covariance of the average multipoles
 names its columns

The header named three columns where seven are written.
---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index a5a018b..95dc3c4 100644
--- a/src/output.c
+++ b/src/output.c
@@ -426,7 +426,7 @@ int coffe_output_init(
         );
 
         FILE *output = fopen(filepath, "w");
-        fprintf(output, "# sep[Mpc/h]\tsep[Mpc/h]\tresult\n");
+        fprintf(output, "# sep1, sep2, l1, l2, z_min, z_max, value\n");
 
         for (size_t i = 0; i < cov_ramp->size; ++i){
             fprintf(
-- 
2.43.0


From 88cd876c5b7d3ffa0abe90bc20cee68edadfbfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 33/42] fix: a missing or too long string in the settings is an
 error

---
 src/parser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 2e7f8f5..f7bab99 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -115,7 +115,14 @@ static int parse_string(
 {
     const char *temp_value;
     int error = config_lookup_string(conf, setting, &temp_value);
-    strcpy(value, (char *)temp_value);
+    if (error == CONFIG_TRUE){
+        if (strlen(temp_value) >= COFFE_MAX_STRLEN){
+            fprintf(stderr,
+                "ERROR: value of setting %s is too long\n", setting);
+            exit(EXIT_FAILURE);
+        }
+        strcpy(value, temp_value);
+    }
     if (safe == COFFE_TRUE){
         if (error != 1){
             fprintf(stderr,
-- 
2.43.0


From a6986528ee4e0dbf21e9d2dc37a0223b686cdbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 34/42] fix: separations_step sets the separations

---
 src/parser.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parser.c b/src/parser.c
index f7bab99..46d4553 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1160,6 +1160,15 @@ int coffe_parser_init(
             fprintf(stderr, "You need to specify one of `separations_sampling` and `separations_step`");
             exit(EXIT_FAILURE);
         }
+        if (error2 == EXIT_SUCCESS){
+            if (step <= 0){
+                print_error_verbose(PROG_VALUE_ERROR, "separations_step");
+                exit(EXIT_FAILURE);
+            }
+            /* all of xmin, xmin + step, ... below xmax */
+            sampling = (int)ceil((xmax - xmin) / step - 1e-10);
+            xmax = xmin + sampling * step;
+        }
         if (par->sep_len)
             free(par->sep);
         par->sep = coffe_generate_range(xmin, xmax, sampling);
-- 
2.43.0


From 5a2c9113fe1b8510b9c2e2edb7cbade73214fadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 35/42] fix: covariance of the average multipoles uses the
 separations of the settings

---
 src/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 46d4553..dba9287 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1139,7 +1139,8 @@ int coffe_parser_init(
         par->output_type == CORRFUNC ||
         par->output_type == MULTIPOLES ||
         par->output_type == AVERAGE_MULTIPOLES ||
-        par->output_type == COVARIANCE_MULTIPOLES
+        par->output_type == COVARIANCE_MULTIPOLES ||
+        par->output_type == COVARIANCE_AVERAGE_MULTIPOLES
     ){
         double xmin, xmax;
         parse_double(conf, "separations_min", &xmin, COFFE_TRUE);
-- 
2.43.0


From 40df9cb7e8931a03e93f8b51b236170d4a5ae271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 36/42] fix: default interpolation is kept when the settings do
 not give one

---
 src/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index dba9287..0d0fbf7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1111,7 +1111,7 @@ int coffe_parser_init(
 
     /* the interpolation method for GSL */
     {
-    int temp;
+    int temp = par->interp_method;
     parse_int(conf, "interpolation", &temp, COFFE_FALSE);
     par->interp_method = (enum coffe_interp1d_type)temp;
     }
-- 
2.43.0


From e039f09d80f5b6956084818c75d8a449a4b2b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 37/42] fix: lists of different length in the settings are
 refused

---
 src/parser.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 0d0fbf7..9690ca8 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -1107,6 +1107,13 @@ int coffe_parser_init(
     if (par->output_type == AVERAGE_MULTIPOLES){
         parse_double_array(conf, "z_min", &par->zmin, &par->zmin_len);
         parse_double_array(conf, "z_max", &par->zmax, &par->zmax_len);
+        if (par->zmin_len != par->zmax_len){
+            fprintf(
+                stderr,
+                "ERROR: z_min and z_max have mismatching lengths; "
+                "please ensure they have the same length!\n");
+            exit(EXIT_FAILURE);
+        }
     }
 
     /* the interpolation method for GSL */
@@ -1432,7 +1439,8 @@ int coffe_parser_init(
             par->density1_len != par->fsky_len ||
             par->density1_len != par->density2_len ||
             par->density1_len != par->zmin_len ||
-            par->density1_len != par->zmax_len
+            par->density1_len != par->zmax_len ||
+            par->density1_len != par->pixelsize_len
         ){
             fprintf(
                 stderr,
-- 
2.43.0


From ba0f6cadb89faa2998805dce0999254a174f7940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:22 +0000
Subject: [PATCH 38/42] fix: an unreadable file of a bias is an error

---
 src/parser.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/parser.c b/src/parser.c
index 9690ca8..8550ad7 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -259,12 +259,17 @@ static int parse_bias(
         double *redshifts, *values;
         size_t len;
         parse_string(conf, setting, filename, COFFE_TRUE);
-        read_2col(
-            filename,
-            &redshifts,
-            &values,
-            &len
-        );
+        if (
+            read_2col(
+                filename,
+                &redshifts,
+                &values,
+                &len
+            ) != EXIT_SUCCESS
+        ){
+            print_error_verbose(PROG_OPEN_ERROR, filename);
+            exit(EXIT_FAILURE);
+        }
         coffe_init_spline(spline, redshifts, values, len, method);
         free(redshifts);
         free(values);
-- 
2.43.0


From c371420a8c44588a1a131b362ce2b7191d2879f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:49 +0000
Subject: [PATCH 39/42] fix: write_ncol writes every row

---
 src/common.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/common.c b/src/common.c
index c47273c..02aee94 100644
--- a/src/common.c
+++ b/src/common.c
@@ -342,13 +342,11 @@ int write_ncol(
     va_end(args);
 
     for (size_t i = 0; i<len; ++i){
-        if (all_values[i] != NULL){
-            for (size_t j = 0; j<ncolumns; ++j){
-                if (j<ncolumns - 1)
-                    fprintf(data, "%.10e%s", all_values[j][i], sep);
-                else
-                    fprintf(data, "%.10e%s\n", all_values[j][i], sep);
-            }
+        for (size_t j = 0; j<ncolumns; ++j){
+            if (j<ncolumns - 1)
+                fprintf(data, "%.10e%s", all_values[j][i], sep);
+            else
+                fprintf(data, "%.10e%s\n", all_values[j][i], sep);
         }
     }
     fclose(data);
-- 
2.43.0


From 3aedae954a2d76d98e8954db0429c837fdd80d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:49 +0000
Subject: [PATCH 40/42] fix: write_matrix writes the last column

---
 src/common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index 02aee94..87e27ed 100644
--- a/src/common.c
+++ b/src/common.c
@@ -439,9 +439,9 @@ int write_matrix(
     for (size_t i = 0; i<len1; ++i){
         for (size_t j = 0; j<len2; ++j){
             if (j != len2 - 1)
-                fprintf(data, "%10e%s", values[i][j], sep);
+                fprintf(data, "%.10e%s", values[i][j], sep);
             else
-                fprintf(data, "\n");
+                fprintf(data, "%.10e\n", values[i][j]);
         }
     }
 
-- 
2.43.0


From d4fab260f25daae9ecce7b2095feef67b1ede3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:06 +0000
Subject: [PATCH 41/42] fix: tables are read completely whatever their line
 ends, blank lines and comments

---
 src/common.c | 124 +++++++++++++++++++--------------------------------
 1 file changed, 47 insertions(+), 77 deletions(-)

diff --git a/src/common.c b/src/common.c
index 87e27ed..23e26ab 100644
--- a/src/common.c
+++ b/src/common.c
@@ -102,6 +102,29 @@ char *coffe_get_time(void)
 }
 
 
+/**
+    reads the next line of <data> which is neither empty nor a comment
+    into <line>, of size COFFE_MAX_STRLEN (anything beyond that is skipped);
+    returns COFFE_FALSE if there are no such lines left
+**/
+
+static int read_line(
+    FILE *data,
+    char *line
+)
+{
+    while (fgets(line, COFFE_MAX_STRLEN, data) != NULL){
+        if (strchr(line, '\n') == NULL){
+            int c;
+            while ((c = fgetc(data)) != EOF && c != '\n');
+        }
+        if (line[0] != '#' && line[strspn(line, " \t\r\n")] != '\0')
+            return COFFE_TRUE;
+    }
+    return COFFE_FALSE;
+}
+
+
 /**
     reads file <filename> into array <values>
     of length <len>
@@ -119,24 +142,10 @@ int read_1col(
         print_error_verbose(PROG_OPEN_ERROR, filename);
         return EXIT_FAILURE;
     }
-    size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
-
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
-
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
-    }
+    char temp_string[COFFE_MAX_STRLEN];
 
     size_t counter = 0;
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#') ++counter;
-    }
+    while (read_line(data, temp_string)) ++counter;
     *len = counter;
 
     error = fseek(data, 0, SEEK_SET);
@@ -148,12 +157,9 @@ int read_1col(
     *values = (double *)coffe_malloc(sizeof(double)*counter);
     counter = 0;
 
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#'){
-            *(*values + counter) = atof(temp_string);
-            ++counter;
-        }
+    while (read_line(data, temp_string)){
+        *(*values + counter) = atof(temp_string);
+        ++counter;
     }
 
     error = fclose(data);
@@ -183,25 +189,11 @@ int read_2col(
         print_error_verbose(PROG_OPEN_ERROR, filename);
         return EXIT_FAILURE;
     }
-    size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
+    char temp_string[COFFE_MAX_STRLEN];
     char *temp_token;
 
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
-
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-
     size_t counter = 0;
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#') ++counter;
-    }
+    while (read_line(data, temp_string)) ++counter;
     *len = counter;
 
     error = fseek(data, 0, SEEK_SET);
@@ -214,15 +206,12 @@ int read_2col(
     *values2 = (double *)coffe_malloc(sizeof(double)*counter);
     counter = 0;
 
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#'){
-            temp_token = strtok(temp_string, ",\t: ");
-            *(*values1 + counter) = atof(temp_token);
-            temp_token = strtok(NULL, ",\t: ");
-            *(*values2 + counter) = atof(temp_token);
-            ++counter;
-        }
+    while (read_line(data, temp_string)){
+        temp_token = strtok(temp_string, ",\t: ");
+        *(*values1 + counter) = atof(temp_token);
+        temp_token = strtok(NULL, ",\t: ");
+        *(*values2 + counter) = atof(temp_token);
+        ++counter;
     }
 
     error = fclose(data);
@@ -833,28 +822,12 @@ int coffe_read_ncol(
         return EXIT_FAILURE;
     }
 
-    /* number of lines in the file */
-    size_t n = 0;
-    char c, temp_string[COFFE_MAX_STRLEN];
+    char temp_string[COFFE_MAX_STRLEN];
     char *temp_token;
 
-    /* first we get how many lines are in the file, also including comments */
-    while ((c=fgetc(data)) != EOF){
-        if (c == '\n') ++n;
-    }
-
-    error = fseek(data, 0, SEEK_SET);
-    if (error){
-        print_error_verbose(PROG_POS_ERROR, filename);
-        return EXIT_FAILURE;
-    }
-
-    /* get a line into temp_string */
+    /* first we get how many lines are in the file, without comments */
     size_t counter = 0;
-    for (size_t i = 0; i<n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#') ++counter;
-    }
+    while (read_line(data, temp_string)) ++counter;
 
     /* number of lines in the file */
     *len = counter;
@@ -875,18 +848,15 @@ int coffe_read_ncol(
     /* kind of recycling <counter> here */
     counter = 0;
 
-    for (size_t i = 0; i < n; ++i){
-        fgets(temp_string, COFFE_MAX_STRLEN, data);
-        if (temp_string[0] != '#'){
-            temp_token = strtok(temp_string, ",\t: ");
-            for (size_t j = 0; j < N; ++j){
-                /* <pointers[j]> should hopefully be the address of <values> */
-                if (temp_token != NULL)
-                    *(pointers[j] + counter) = atof(temp_token);
-                temp_token = strtok(NULL, ",\t: ");
-            }
-            ++counter;
+    while (read_line(data, temp_string)){
+        temp_token = strtok(temp_string, ",\t: ");
+        for (size_t j = 0; j < N; ++j){
+            /* <pointers[j]> should hopefully be the address of <values> */
+            if (temp_token != NULL)
+                *(pointers[j] + counter) = atof(temp_token);
+            temp_token = strtok(NULL, ",\t: ");
         }
+        ++counter;
     }
 
     /* here we need to do the varg trick */
-- 
2.43.0


From 9e0bf9441b9dd365b0051c628c7924a8ad862e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:06 +0000
Subject: [PATCH 42/42] fix: a line of a table with too few columns is an error

---
 src/common.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/common.c b/src/common.c
index 23e26ab..9f98af1 100644
--- a/src/common.c
+++ b/src/common.c
@@ -208,8 +208,15 @@ int read_2col(
 
     while (read_line(data, temp_string)){
         temp_token = strtok(temp_string, ",\t: ");
-        *(*values1 + counter) = atof(temp_token);
-        temp_token = strtok(NULL, ",\t: ");
+        *(*values1 + counter) = temp_token != NULL ? atof(temp_token) : 0;
+        temp_token = strtok(NULL, ",\t: \r\n");
+        if (temp_token == NULL){
+            fprintf(stderr, "ERROR: file %s has a line without two columns\n", filename);
+            free(*values1);
+            free(*values2);
+            fclose(data);
+            return EXIT_FAILURE;
+        }
         *(*values2 + counter) = atof(temp_token);
         ++counter;
     }
@@ -849,12 +856,19 @@ int coffe_read_ncol(
     counter = 0;
 
     while (read_line(data, temp_string)){
-        temp_token = strtok(temp_string, ",\t: ");
+        temp_token = strtok(temp_string, ",\t: \r\n");
         for (size_t j = 0; j < N; ++j){
+            if (temp_token == NULL){
+                fprintf(stderr, "ERROR: file %s has a line without %zu columns\n", filename, N);
+                for (size_t k = 0; k < N; ++k)
+                    free(pointers[k]);
+                free(pointers);
+                fclose(data);
+                return EXIT_FAILURE;
+            }
             /* <pointers[j]> should hopefully be the address of <values> */
-            if (temp_token != NULL)
-                *(pointers[j] + counter) = atof(temp_token);
-            temp_token = strtok(NULL, ",\t: ");
+            *(pointers[j] + counter) = atof(temp_token);
+            temp_token = strtok(NULL, ",\t: \r\n");
         }
         ++counter;
     }
-- 
2.43.0

