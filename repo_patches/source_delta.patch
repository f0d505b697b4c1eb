From 8ef99716abe8737696dc5a6de1ff1174e4bc3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 001/181] fix: kdtree: use the l1 metric in the
 branch-and-bound lower bound

The lower bound of a search branch accumulated squared coordinate
differences also for forests using the l1 distance, so that exact l1
queries could prune the branch holding a nearest neighbour.
---
 vl/kdtree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 889cc7d..796304a 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -688,24 +688,30 @@ vl_kdforest_query_recursively (VlKDForestSearcher * searcher,
    *   (---|---] x
    */
 
+  /* The distance is a sum of per-coordinate terms, |delta| for the
+   * l1 distance and delta^2 for the squared l2 one. */
+#define VL_KDTREE_TERM(d) \
+  (searcher->forest->distance == VlDistanceL1 ? vl_abs_d(d) : (d)*(d))
+
   delta = x - x2 ;
-  saveDist = dist + delta*delta ;
+  saveDist = dist + VL_KDTREE_TERM(delta) ;
 
   if (x <= x2) {
     nextChild = node->lowerChild ;
     saveChild = node->upperChild ;
     if (x <= x1) {
       delta = x - x1 ;
-      saveDist -= delta*delta ;
+      saveDist -= VL_KDTREE_TERM(delta) ;
     }
   } else {
     nextChild = node->upperChild ;
     saveChild = node->lowerChild ;
     if (x > x3) {
       delta = x - x3 ;
-      saveDist -= delta*delta ;
+      saveDist -= VL_KDTREE_TERM(delta) ;
     }
   }
+#undef VL_KDTREE_TERM
 
   if (*numAddedNeighbors < numNeighbors || neighbors[0].distance > saveDist) {
     searchState = searcher->searchHeapArray + searcher->searchHeapNumNodes ;
-- 
2.43.0


From 0517fef26f7f937b51cb4ded772305b373a2434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 002/181] fix: mathop: vl_fast_sqrt_d takes a double

The argument was declared float, so values beyond the float range gave
infinity.
---
 vl/mathop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.h b/vl/mathop.h
index 6a1df80..8be0ebb 100644
--- a/vl/mathop.h
+++ b/vl/mathop.h
@@ -552,7 +552,7 @@ vl_fast_sqrt_f (float x)
  **/
 
 VL_INLINE double
-vl_fast_sqrt_d (float x)
+vl_fast_sqrt_d (double x)
 {
   return (x < 1e-8) ? 0 : x * vl_fast_resqrt_d (x) ;
 }
-- 
2.43.0


From 376fa25d40492d2d8a21aef639ccd8f474b47eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 003/181] fix: mathop: vl_svd2 of a matrix with a null first
 column

The column was normalised by its zero norm and every output was NaN.
---
 vl/mathop.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 27bd7d4..4c7b815 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -650,8 +650,14 @@ vl_svd2 (double* S, double *U, double *V, double const *M)
   double cu2, su2, cv2, sv2 ;
   double f, g, h ;
   double smin, smax ;
-  cu1 /= norm ;
-  su1 /= norm ;
+  if (norm > 0) {
+    cu1 /= norm ;
+    su1 /= norm ;
+  } else {
+    /* the first column is null: M is already upper triangular */
+    cu1 = 1.0 ;
+    su1 = 0.0 ;
+  }
 
   f = cu1 * m11 + su1 * m21 ;
   g = cu1 * m12 + su1 * m22 ;
-- 
2.43.0


From 4c6f1ccc333a47e92d0518c535b7102e372cb468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 004/181] fix: mathop: right vectors of vl_lapack_dlasv2 for
 very large g

As in LAPACK's dlasv2, svt is 1 and cvt is ft/gt when |g| dominates;
the two were exchanged.
---
 vl/mathop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/mathop.c b/vl/mathop.c
index 4c7b815..ae590ff 100644
--- a/vl/mathop.c
+++ b/vl/mathop.c
@@ -773,7 +773,7 @@ vl_lapack_dlasv2 (double *smin,
           *smin = (fa / ga) * ha ; /* 2 ulps */
         }
         cut = 1.0 ; sut = ht / gt ;
-        cvt = 1.0 ; svt = ft / gt ;
+        svt = 1.0 ; cvt = ft / gt ;
       }
     }
 
-- 
2.43.0


From 7edf94d80c84355bd01930162fc8aa0af737751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 005/181] fix: rodrigues: no NaN from rounding near the null
 and pi rotations

Rounding can push the trace above 3 and the squared components at an
angle of pi below zero; acos and sqrt then returned NaN.
---
 vl/rodrigues.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vl/rodrigues.c b/vl/rodrigues.c
index 14958c9..25690b7 100644
--- a/vl/rodrigues.c
+++ b/vl/rodrigues.c
@@ -189,7 +189,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
       ---- = ---------- r,  ---- = ----- [di1 dj3 - di3 dj1].
       dRii     2 sth^2      dRij   2 sth [di1 dj2 - di2 dj1]
 
-      trace(A) < -1 only for small num. errors.
+      trace(A) < -1 or > 3 only for small num. errors.
   */
 
 #define OM(i)    om_pt[(i)]
@@ -200,7 +200,7 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
   const double small = 1e-6 ;
 
   double th = acos
-    (0.5*(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0) - 1.0)) ;
+    (0.5*(VL_MIN(VL_MAX(R(0,0)+R(1,1)+R(2,2),-1.0),3.0) - 1.0)) ;
 
   double sth = sin(th) ;
   double cth = cos(th) ;
@@ -233,9 +233,9 @@ void vl_irodrigues(double* om_pt, double* dom_pt, const double* R_pt)
     W_pt[8] =  0.5*( R(2,2) + R(2,2) ) - 1.0 ;
 
     /* these are only absolute values */
-    x = sqrt( 0.5 * (W(0,0)-W(1,1)-W(2,2)) ) ;
-    y = sqrt( 0.5 * (W(1,1)-W(2,2)-W(0,0)) ) ;
-    z = sqrt( 0.5 * (W(2,2)-W(0,0)-W(1,1)) ) ;
+    x = sqrt( VL_MAX(0.5 * (W(0,0)-W(1,1)-W(2,2)), 0.0) ) ;
+    y = sqrt( VL_MAX(0.5 * (W(1,1)-W(2,2)-W(0,0)), 0.0) ) ;
+    z = sqrt( VL_MAX(0.5 * (W(2,2)-W(0,0)-W(1,1)), 0.0) ) ;
 
     /* set the biggest component to + and use the element of the
     ** matrix W to determine the sign of the other components
-- 
2.43.0


From d0d7a53f9e2392900cd42bbc3452c53cefee1c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 006/181] fix: getopt_long: a lone dash is not an option

The parser read past the end of the argument and of the option string
when an argument was a single dash.
---
 vl/getopt_long.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 0e860f3..5053567 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -120,8 +120,8 @@ getopt_long(int argc, char *const argv[],
     /* place points to the candidate option */
     place = argv [optbegin] ;
 
-    /* an option is introduced by '-' */
-    if (place [0] != '-') {
+    /* an option is introduced by '-'; a lone '-' is not an option */
+    if (place [0] != '-' || place [1] == '\0') {
       /* this argument is not an option: try next argument */
       ++ optbegin ;
       if (optbegin >= argc) {
-- 
2.43.0


From 0ec64311d0fae3adc69cbd98f35b968781e37c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 007/181] fix: getopt_long: do not lose the argument after --

optind was advanced both here and at done_option, which then copied the
double dash over the following argument (or over the final null).
---
 vl/getopt_long.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index 5053567..e5fbb8e 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -150,7 +150,6 @@ getopt_long(int argc, char *const argv[],
         place[0] == '-' &&
         place[1] == '\0') {
 
-      optind  = optend ;
       place   = EMSG ;
       ret_val = -1 ;
       goto done_option ;
-- 
2.43.0


From 6f651b3f64b9860d5f454c6102e1961f8a0447b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 008/181] fix: getopt_long: ':' is not an option character

The argument marker of the option string was matched as an option, whose
code is the one of a missing argument.
---
 vl/getopt_long.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index e5fbb8e..d358987 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -239,7 +239,7 @@ getopt_long(int argc, char *const argv[],
   optopt = (int) *place++ ;
 
   /* search charcater in option list */
-  oli = strchr(optstring, optopt);
+  oli = (optopt == ':') ? NULL : strchr(optstring, optopt);
 
   /* short option not found */
   if (!oli) {
-- 
2.43.0


From d88018407cccba5fafe56a04ce26837aec42edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 009/181] fix: stringop: match protocol names exactly

Any prefix of a protocol name, the empty one included, was taken for it,
and the documented binary:// was not recognised.
---
 vl/stringop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index 5f92df3..c71cdec 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -97,10 +97,12 @@ vl_string_parse_protocol (char const *string, int *protocol)
     cpt = string ;
   }
   else {
-    if (strncmp(string, "ascii", cpt - string) == 0) {
+    size_t length = cpt - string ;
+    if (length == 5 && strncmp(string, "ascii", length) == 0) {
       *protocol = VL_PROT_ASCII ;
     }
-    else if (strncmp(string, "bin",   cpt - string) == 0) {
+    else if ((length == 3 && strncmp(string, "bin", length) == 0) ||
+             (length == 6 && strncmp(string, "binary", length) == 0)) {
       *protocol = VL_PROT_BINARY ;
     }
     else {
-- 
2.43.0


From 049229b87de8244eb5cb5b1ee5ee106fe0e607b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 010/181] fix: stringop: the name of an unknown protocol is the
 empty string

As documented; it was NULL.
---
 vl/stringop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/stringop.c b/vl/stringop.c
index c71cdec..9d87517 100644
--- a/vl/stringop.c
+++ b/vl/stringop.c
@@ -135,7 +135,7 @@ vl_string_protocol_name (int protocol)
   case VL_PROT_NONE :
     return "" ;
   default:
-    return 0 ;
+    return "" ;
   }
 }
 
-- 
2.43.0


From 179004a3190830ace9717e5dd0cf6a341c7e1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 011/181] fix: imopv: filter supports that do not contain the
 origin in column convolution

---
 vl/imopv.c      | 4 ++--
 vl/imopv_sse2.c | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 225b733..12e5e4a 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -164,7 +164,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
       T const* srci ;
 
       filti = filt ;
-      stop = filt_end - y ;
+      stop = VL_MIN(filt_end - y, filt_end - filt_begin + 1) ;
       srci = src + x - stop * src_stride ;
 
       if (stop > 0) {
@@ -188,7 +188,7 @@ VL_XCAT(vl_imconvcol_v, SFX)
         srci += src_stride ;
       }
 
-      if (zeropad) v = 0 ;
+      v = zeropad ? 0 : src [x + ((signed)src_height - 1) * src_stride] ;
 
       stop = filt_end - filt_begin + 1 ;
       while (filti > filt - stop) {
diff --git a/vl/imopv_sse2.c b/vl/imopv_sse2.c
index 016c23f..65eb66b 100644
--- a/vl/imopv_sse2.c
+++ b/vl/imopv_sse2.c
@@ -85,7 +85,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         v = VSTZ() ;
 
         filti = filt ;
-        stop = filt_end - y ;
+        stop = VL_MIN(filt_end - y, filt_end - filt_begin + 1) ;
         srci = src + x - stop * src_stride ;
 
         if (stop > 0) {
@@ -109,7 +109,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = VSTZ () ;
+        v = zeropad ? VSTZ () : * (VTYPE*) (src + x + ((signed)src_height - 1) * src_stride) ;
 
         stop = filt_end - filt_begin + 1;
         while (filti > filt - stop) {
@@ -151,7 +151,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
         T const* srci ;
 
         filti = filt ;
-        stop = filt_end - y ;
+        stop = VL_MIN(filt_end - y, filt_end - filt_begin + 1) ;
         srci = src + x - stop * src_stride ;
 
         if (stop > 0) {
@@ -175,7 +175,7 @@ VL_XCAT3(_vl_imconvcol_v, SFX, _sse2)
           srci += src_stride ;
         }
 
-        if (zeropad) v = 0 ;
+        v = zeropad ? 0 : src [x + ((signed)src_height - 1) * src_stride] ;
 
         stop = filt_end - filt_begin + 1 ;
         while (filti > filt - stop) {
-- 
2.43.0


From 693d7bcf8e1a6cd11876e90bc1679293a28d91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 012/181] fix: imopv: vl_imconvcoltri leaks its buffer for an
 empty image

---
 vl/imopv.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vl/imopv.c b/vl/imopv.c
index 12e5e4a..40bdfb5 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -519,13 +519,15 @@ VL_XCAT(vl_imconvcoltri_, SFX)
   vl_bool transp = flags & VL_TRANSPOSE ;
   vl_bool zeropad = (flags & VL_PAD_MASK) == VL_PAD_BY_ZERO ;
   T scale = (T) (1.0 / ((double)filterSize * (double)filterSize)) ;
-  T * buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
-  buffer += filterSize ;
+  T * buffer ;
 
   if (imageHeight == 0) {
     return  ;
   }
 
+  buffer = vl_malloc (sizeof(T) * (imageHeight + filterSize)) ;
+  buffer += filterSize ;
+
   x = 0 ;
   dheight = (imageHeight - 1) / step + 1 ;
 
-- 
2.43.0


From b270a28bb9761e749ee20f2cf56c282476368705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:35 +0000
Subject: [PATCH 013/181] fix: imopv: gradient of images with a single row or
 column

---
 vl/imopv.c | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/vl/imopv.c b/vl/imopv.c
index 40bdfb5..a222378 100644
--- a/vl/imopv.c
+++ b/vl/imopv.c
@@ -739,6 +739,24 @@ VL_XCAT(vl_imgradient_, SFX)
   T *pgrad_x, *pgrad_y;
   vl_size y;
 
+  /* a dimension with a single pixel has null gradient */
+  if (w < 2 || h < 2) {
+    vl_size x ;
+    for (y = 0 ; y < h ; ++y) {
+      for (x = 0 ; x < w ; ++x) {
+        vl_size const xb = (x > 0) ? x - 1 : x ;
+        vl_size const xe = (x + 1 < w) ? x + 1 : x ;
+        vl_size const yb = (y > 0) ? y - 1 : y ;
+        vl_size const ye = (y + 1 < h) ? y + 1 : y ;
+        T gx = image[xe + y * yo] - image[xb + y * yo] ;
+        T gy = image[x + ye * yo] - image[x + yb * yo] ;
+        xGradient[x * gradWidthStride + y * gradHeightStride] = (xe - xb > 1) ? 0.5 * gx : gx ;
+        yGradient[x * gradWidthStride + y * gradHeightStride] = (ye - yb > 1) ? 0.5 * gy : gy ;
+      }
+    }
+    return ;
+  }
+
   src  = image ;
   pgrad_x = xGradient ;
   pgrad_y = yGradient ;
@@ -891,6 +909,28 @@ VL_XCAT(vl_imgradient_polar_, SFX)
   T gx, gy ;
   vl_size y;
 
+  /* a dimension with a single pixel has null gradient */
+  if (w < 2 || h < 2) {
+    vl_size x ;
+    for (y = 0 ; y < h ; ++y) {
+      for (x = 0 ; x < w ; ++x) {
+        vl_size const xb = (x > 0) ? x - 1 : x ;
+        vl_size const xe = (x + 1 < w) ? x + 1 : x ;
+        vl_size const yb = (y > 0) ? y - 1 : y ;
+        vl_size const ye = (y + 1 < h) ? y + 1 : y ;
+        gx = image[xe + y * yo] - image[xb + y * yo] ;
+        gy = image[x + ye * yo] - image[x + yb * yo] ;
+        if (xe - xb > 1) gx *= 0.5 ;
+        if (ye - yb > 1) gy *= 0.5 ;
+        gradientModulus[x * gradientHorizontalStride + y * gradHeightStride] =
+        vl_fast_sqrt_f (gx*gx + gy*gy) ;
+        gradientAngle[x * gradientHorizontalStride + y * gradHeightStride] =
+        vl_mod_2pi_f (vl_fast_atan2_f (gy, gx) + 2*VL_PI) ;
+      }
+    }
+    return ;
+  }
+
 #define SAVE_BACK                                                    \
 *pgrad_ampl = vl_fast_sqrt_f (gx*gx + gy*gy) ;                       \
 pgrad_ampl += gradientHorizontalStride ;                             \
-- 
2.43.0


From 7f4deb1e29b6913f3227f0df3d7f8e931db2dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 014/181] fix: kmeans: copy every setting in vl_kmeans_new_copy

---
 vl/kmeans.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index c250ca8..dd5821c 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -439,9 +439,12 @@ vl_kmeans_new_copy (VlKMeans const * kmeans)
   self->distance = kmeans->distance ;
   self->dataType = kmeans->dataType ;
 
+  self->initialization = kmeans->initialization ;
   self->verbosity = kmeans->verbosity ;
   self->maxNumIterations = kmeans->maxNumIterations ;
+  self->minEnergyVariation = kmeans->minEnergyVariation ;
   self->numRepetitions = kmeans->numRepetitions ;
+  self->energy = kmeans->energy ;
 
   self->dimension = kmeans->dimension ;
   self->numCenters = kmeans->numCenters ;
-- 
2.43.0


From 8afcd8c7b45f9b4b9211b943661171cf4591db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 015/181] fix: kmeans: record the energy returned by
 vl_kmeans_get_energy

---
 vl/kmeans.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index dd5821c..3905007 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -1993,16 +1993,19 @@ vl_kmeans_refine_centers
 
   switch (self->dataType) {
     case VL_TYPE_FLOAT :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_f
         (self, (float const *)data, numData) ;
+      break ;
     case VL_TYPE_DOUBLE :
-      return
+      self->energy =
         _vl_kmeans_refine_centers_d
         (self, (double const *)data, numData) ;
+      break ;
     default:
       abort() ;
   }
+  return self->energy ;
 }
 
 
@@ -2092,6 +2095,7 @@ vl_kmeans_cluster (VlKMeans * self,
 
   vl_free (self->centers) ;
   self->centers = bestCenters ;
+  self->energy = bestEnergy ;
   return bestEnergy ;
 }
 
-- 
2.43.0


From 9c8dde12a3cd8d34a3c7d80d3eee84d8316c9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 016/181] fix: kmeans: the cluster masses are as many as the
 centers

---
 vl/kmeans.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 3905007..43b80f1 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -841,7 +841,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   vl_uint32 * permutations = NULL ;
   vl_size * numSeenSoFar = NULL ;
   VlRand * rand = vl_get_rand () ;
@@ -900,7 +900,7 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1021,7 +1021,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
   vl_size numRestartedCenters = 0 ;
 
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
 
   if (self->distance == VlDistanceL1) {
@@ -1076,7 +1076,7 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
     previousEnergy = energy ;
 
     /* update clusters */
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
@@ -1174,7 +1174,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
   vl_bool allDone ;
   TYPE * distances = vl_malloc (sizeof(TYPE) * numData) ;
   vl_uint32 * assignments = vl_malloc (sizeof(vl_uint32) * numData) ;
-  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * numData) ;
+  vl_size * clusterMasses = vl_malloc (sizeof(vl_size) * self->numCenters) ;
   VlRand * rand = vl_get_rand () ;
 
 #if (FLT == VL_TYPE_FLOAT)
@@ -1314,7 +1314,7 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
     /*                         Compute new centers                  */
     /* ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ */
 
-    memset(clusterMasses, 0, sizeof(vl_size) * numData) ;
+    memset(clusterMasses, 0, sizeof(vl_size) * self->numCenters) ;
     for (x = 0 ; x < (signed)numData ; ++x) {
       clusterMasses[assignments[x]] ++ ;
     }
-- 
2.43.0


From 03328bfd3f011cf34f35abf599a023a3ebd23cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 017/181] fix: kmeans: OpenMP: compile with recent GCC, no race
 on the convergence flag

---
 vl/kmeans.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index 43b80f1..a258329 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -672,7 +672,7 @@ VL_XCAT(_vl_kmeans_quantize_, SFX)
 #endif
 
 #ifdef _OPENMP
-#pragma omp parallel default(none) \
+#pragma omp parallel default(shared) \
             shared(self, distances, assignments, numData, distFn, data) \
             num_threads(vl_get_max_threads())
 #endif
@@ -1496,8 +1496,9 @@ VL_XCAT(_vl_kmeans_refine_centers_elkan_, SFX)
             shared(self,numData, \
               pointToClosestCenterUB,pointToCenterLB, \
               nextCenterDistances,pointToClosestCenterUBIsStrict, \
-              assignments,data,distFn,allDone) \
+              assignments,data,distFn) \
             private(c,x) \
+            reduction(&&:allDone) \
             reduction(+:numDistanceComputationsToRefreshUB,numDistanceComputationsToRefreshLB) \
             num_threads(vl_get_max_threads())
 #endif
-- 
2.43.0


From 480cccf87ed0bdf9b5ae0c1dc15ee6cc73bd468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 018/181] fix: ikmeans: the cluster counts are as many as the
 centers

---
 vl/ikmeans_elkan.tc | 2 +-
 vl/ikmeans_lloyd.tc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index d04c436..a655a39 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -75,7 +75,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_ikmacc_t *l_pt = vl_malloc(sizeof(*l_pt) * N * f->K) ; /* lower bound  */
   vl_ikmacc_t *d_pt = f->inter_dist ; /* half inter clst dist  */
   vl_uint32 *asgn = vl_malloc (sizeof(*asgn) * N) ;
-  vl_uint32 *counts =vl_malloc (sizeof(*counts) * N) ;
+  vl_uint32 *counts =vl_malloc (sizeof(*counts) * f->K) ;
 
   int done = 0 ;
 
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 7119267..5cc5fee 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -36,7 +36,7 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   int err =  0 ;
   vl_uindex iter, i, j, k  ;
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
-  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * N) ;
+  vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
-- 
2.43.0


From e59d764bc28bc678ce84d02cd954e35f15517201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:26 +0000
Subject: [PATCH 019/181] fix: ikmeans: Lloyd compares the first assignments
 with uninitialised memory

---
 vl/ikmeans_lloyd.tc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index 5cc5fee..edfd580 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -38,6 +38,9 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
   vl_uint32 *asgn = vl_malloc (sizeof(vl_uint32) * N) ;
   vl_uint32 *counts = vl_malloc (sizeof(vl_uint32) * f->K) ;
 
+  /* no assignment yet */
+  for (j = 0 ; j < N ; ++j) asgn [j] = (vl_uint32) -1 ;
+
   for (iter = 0 ; 1 ; ++ iter) {
     vl_bool done = 1 ;
 
-- 
2.43.0


From ce792de2923053e176f97525d257375db48e4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 020/181] fix: ikmeans: a center without data is not changed

---
 vl/ikmeans_elkan.tc |  2 +-
 vl/ikmeans_lloyd.tc | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index a655a39..fb5ca03 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -156,7 +156,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
         }
       } else {
         for(i = 0 ; i < f->M ; ++i) {
-          /*m_pt[c*M + i] = data[pairs_pt[c].j*M + i] ;*/
+          m_pt[c * f->M + i] = f->centers[c * f->M + i] ;
         }
       }
     }
diff --git a/vl/ikmeans_lloyd.tc b/vl/ikmeans_lloyd.tc
index edfd580..0916998 100644
--- a/vl/ikmeans_lloyd.tc
+++ b/vl/ikmeans_lloyd.tc
@@ -82,11 +82,17 @@ vl_ikm_train_lloyd (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
      * ------------------------------------------------------------ */
 
     /* re-compute centers */
-    memset (f->centers, 0, sizeof(*f->centers) * f->M * f->K);
     memset (counts,  0, sizeof(*counts) * f->K);
+    for (j = 0; j < N; ++j) {
+      ++ counts [asgn [j]] ;
+    }
+    for (k = 0; k < f->K; ++k) {
+      if (counts [k] > 0) {
+        memset (f->centers + k * f->M, 0, sizeof(*f->centers) * f->M) ;
+      }
+    }
     for (j = 0; j < N; ++j) {
       vl_uindex this_center = asgn [j] ;
-      ++ counts [this_center] ;
       for (i = 0; i < f->M ; ++i) {
         f->centers [this_center * f->M + i] += data[j * f->M + i] ;
       }
-- 
2.43.0


From abc929dad12f6df377421240016e6b08e4b9ce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 021/181] fix: ikmeans: random centers in the range of the data

---
 vl/ikmeans_init.tc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/ikmeans_init.tc b/vl/ikmeans_init.tc
index 87f989f..824b113 100644
--- a/vl/ikmeans_init.tc
+++ b/vl/ikmeans_init.tc
@@ -102,7 +102,7 @@ vl_ikm_init_rand
 
   for (k = 0 ; k < K ; ++ k) {
     for (i = 0 ; i < M ; ++ i) {
-      f-> centers [k * M + i] = (vl_ikmacc_t) (vl_rand_uint32 (rand)) ;
+      f-> centers [k * M + i] = (vl_ikmacc_t) (vl_rand_uint32 (rand) & 0xff) ;
     }
   }
 
-- 
2.43.0


From 20fccd5fd5e6a4179e0f9466aa6bef71d223602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 022/181] fix: hikmeans: vl_hikm_train leaks the tree of a
 previous training

---
 vl/hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index c727208..dfaebdc 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -237,6 +237,7 @@ vl_hikm_init (VlHIKMTree *f, vl_size M, vl_size K, vl_size depth)
 void
 vl_hikm_train (VlHIKMTree *f, vl_uint8 const *data, vl_size N)
 {
+  xdelete (f->root) ;
   f->root= xmeans (f, data, N, VL_MIN(f->K, N), f->depth) ;
 }
 
-- 
2.43.0


From 11901ea0153d9ce73074a0d87789028c051c85b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 023/181] fix: hikmeans: push data to a branch that got no
 training data

---
 vl/hikmeans.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vl/hikmeans.c b/vl/hikmeans.c
index dfaebdc..2679949 100644
--- a/vl/hikmeans.c
+++ b/vl/hikmeans.c
@@ -267,6 +267,11 @@ vl_hikm_push (VlHIKMTree *f, vl_uint32 *asgn, vl_uint8 const *data, vl_size N)
     d = 0 ;
     while (node) {
       vl_uint32 best ;
+      if (vl_ikm_get_K (node->filter) == 0) {
+        /* no training data reached this branch */
+        while (d < depth) asgn[i * depth + (d ++)] = 0 ;
+        break ;
+      }
       vl_ikm_push (node->filter,
                    &best,
                    data + i * M, 1) ;
-- 
2.43.0


From 750bac7aca066420d7cc7bbd23e3e286b8935ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 024/181] fix: kmeans: declare vl_kmeans_quantize_ann as it is
 defined

---
 vl/kmeans.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/kmeans.h b/vl/kmeans.h
index a3cd176..2d66a9c 100644
--- a/vl/kmeans.h
+++ b/vl/kmeans.h
@@ -92,12 +92,12 @@ VL_EXPORT void vl_kmeans_quantize (VlKMeans * self,
                                    void const * data,
                                    vl_size numData) ;
 
-VL_EXPORT void vl_kmeans_quantize_ANN (VlKMeans * self,
+VL_EXPORT void vl_kmeans_quantize_ann (VlKMeans * self,
                                    vl_uint32 * assignments,
                                    void * distances,
                                    void const * data,
                                    vl_size numData,
-                                   vl_size iteration );
+                                   vl_bool update) ;
 /** @} */
 
 /** @name Advanced data processing
-- 
2.43.0


From 7f214bf26fa6523920a5f83b5543edd54e830923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 025/181] fix: kdtree: declare vl_kdforestsearcher_get_forest
 under its name

---
 vl/kdtree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kdtree.h b/vl/kdtree.h
index 8c8f212..9c07d95 100644
--- a/vl/kdtree.h
+++ b/vl/kdtree.h
@@ -176,7 +176,7 @@ VL_EXPORT void vl_kdforest_set_max_num_comparisons (VlKDForest * self, vl_size n
 VL_EXPORT vl_size vl_kdforest_get_max_num_comparisons (VlKDForest * self) ;
 VL_EXPORT void vl_kdforest_set_thresholding_method (VlKDForest * self, VlKDTreeThresholdingMethod method) ;
 VL_EXPORT VlKDTreeThresholdingMethod vl_kdforest_get_thresholding_method (VlKDForest const * self) ;
-VL_EXPORT VlKDForest * vl_kdforest_searcher_get_forest (VlKDForestSearcher const * self) ;
+VL_EXPORT VlKDForest * vl_kdforestsearcher_get_forest (VlKDForestSearcher const * self) ;
 VL_EXPORT VlKDForestSearcher * vl_kdforest_get_searcher (VlKDForest const * self, vl_uindex pos) ;
 /** @} */
 
-- 
2.43.0


From 9cbf0b8bcbd4f202f2f5d543dd63ae65bf03530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 026/181] fix: ikmeans: Elkan prunes with the distances of the
 previous center of a point

---
 vl/ikmeans_elkan.tc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/ikmeans_elkan.tc b/vl/ikmeans_elkan.tc
index fb5ca03..c683824 100644
--- a/vl/ikmeans_elkan.tc
+++ b/vl/ikmeans_elkan.tc
@@ -285,6 +285,7 @@ vl_ikm_train_elkan (VlIKMFilt* f, vl_uint8 const* data, vl_size N)
           ux = u_pt[x] = dist ;
           /* r_pt[x] already 0 */
           asgn[x] = (vl_uint32)c ;
+          cx = c ;
           done = 0 ;
         }
       }
-- 
2.43.0


From b8ede0262397c36542f54eaa15c6d010bb32c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 027/181] fix: gmm: free the covariance bounds and the mode
 masses

---
 vl/gmm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index 5850445..97ac65e 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -417,6 +417,7 @@ vl_gmm_delete (VlGMM * self)
   if(self->covariances) vl_free(self->covariances);
   if(self->priors) vl_free(self->priors);
   if(self->posteriors) vl_free(self->posteriors);
+  if(self->sigmaLowBound) vl_free(self->sigmaLowBound);
   if(self->kmeansInit && self->kmeansInitIsOwner) {
     vl_kmeans_delete(self->kmeansInit);
   }
@@ -825,10 +826,12 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
 
   //VlRand * rand = vl_get_rand() ;
 
-  TYPE * mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+  TYPE * mass ;
 
   if (numClusters <= 1) { return 0 ; }
 
+  mass = vl_calloc(sizeof(TYPE), self->numClusters) ;
+
   /* compute statistics */
   {
     vl_uindex i, k ;
@@ -995,6 +998,7 @@ VL_XCAT(_vl_gmm_restart_empty_modes_, SFX) (VlGMM * self, TYPE const * data)
     (self,posteriors,priors,covariances,means,data,self->numData) ;
   }
 
+  vl_free(mass) ;
   return zeroWNum;
 }
 
-- 
2.43.0


From a55025e2be176e1e43eb09b921954bdfaf3e07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 028/181] fix: gmm: vl_gmm_new_copy copies the covariance lower
 bounds

---
 vl/gmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index 97ac65e..cdc8cd3 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1495,6 +1495,7 @@ vl_gmm_new_copy (VlGMM const * self)
   memcpy(gmm->means, self->means, size*self->numClusters*self->dimension);
   memcpy(gmm->covariances, self->covariances, size*self->numClusters*self->dimension);
   memcpy(gmm->priors, self->priors, size*self->numClusters);
+  vl_gmm_set_covariance_lower_bounds(gmm, self->sigmaLowBound);
   return gmm ;
 }
 
-- 
2.43.0


From d751c27101c44c5de7b4e840dd252b5ca55d2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 029/181] fix: gmm: vl_gmm_em updates the log-likelihood of the
 mixture

---
 vl/gmm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/gmm.c b/vl/gmm.c
index cdc8cd3..c448151 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1662,13 +1662,13 @@ double vl_gmm_em (VlGMM * self, void const * data, vl_size numData)
 {
   switch (self->dataType) {
     case VL_TYPE_FLOAT:
-      return _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_f (self, (float const *)data, numData) ; break ;
     case VL_TYPE_DOUBLE:
-      return _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
+      self->LL = _vl_gmm_em_d (self, (double const *)data, numData) ; break ;
     default:
       abort() ;
   }
-  return 0 ;
+  return self->LL ;
 }
 
 /** @brief Explicitly set the initial means for EM.
-- 
2.43.0


From 277249e2cd27201f47bffe6be4a3f5802514a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 030/181] fix: gmm: repetitions of a custom initialization
 start from uninitialised memory

---
 vl/gmm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/gmm.c b/vl/gmm.c
index c448151..a5cb8ad 100644
--- a/vl/gmm.c
+++ b/vl/gmm.c
@@ -1584,6 +1584,10 @@ double vl_gmm_cluster (VlGMM * self,
 
   for (repetition = 0 ; repetition < self->numRepetitions ; ++ repetition) {
     double LL ;
+
+    /* EM is deterministic and would start from the same custom parameters */
+    if (self->initialization == VlGMMCustom && repetition > 0) { break ; }
+
     double timeRef ;
 
     if (self->verbosity) {
-- 
2.43.0


From 4447b24958c30a5a3f08701e8cff2c2a80eabd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 031/181] fix: aib: entries of null probability had an
 uninitialised closest match

---
 vl/aib.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/aib.c b/vl/aib.c
index 1c07b70..5fddc39 100644
--- a/vl/aib.c
+++ b/vl/aib.c
@@ -506,8 +506,10 @@ VlAIB * vl_aib_new(double * Pcx, vl_uint nvalues, vl_uint nlabels)
     aib->beta     = vl_malloc(sizeof(double) * aib->nentries) ;
     aib->bidx     = vl_malloc(sizeof(vl_uint)   * aib->nentries) ;
 
-    for(i = 0 ; i < aib->nentries ; i++)
+    for(i = 0 ; i < aib->nentries ; i++) {
       aib->beta [i] = BETA_MAX ;
+      aib->bidx [i] = 0 ;
+    }
 
     /* Initially we must consider all nodes */
     aib->nwhich = aib->nvalues;
-- 
2.43.0


From 066be3f8ec642dbd17655f3e0698092f742aeb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:29 +0000
Subject: [PATCH 032/181] fix: svm: vl_svm_delete releases the scores

---
 vl/svm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vl/svm.c b/vl/svm.c
index 49af2eb..0917218 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1104,6 +1104,10 @@ vl_svm_delete (VlSvm * self)
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  if (self->scores) {
+    vl_free (self->scores) ;
+    self->scores = 0 ;
+  }
   if (self->ownDataset) {
     vl_svmdataset_delete(self->ownDataset) ;
     self->ownDataset = 0 ;
-- 
2.43.0


From 990b1e862bbabd27e3ecaac341744b8043e8afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 033/181] fix: svm: compute the scores of data points of null
 weight too

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 0917218..1936745 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1887,10 +1887,10 @@ void _vl_svm_update_statistics (VlSvm *self)
 
   for (k = 0; k < self->numData ; k++) {
     p = (self->weights) ? self->weights[k] : 1.0 ;
-    if (p <= 0) continue ;
     inner = self->innerProductFn(self->data, k, self->model) ;
     inner += self->bias * self->biasMultiplier ;
     self->scores[k] = inner ;
+    if (p <= 0) continue ;
     self->statistics.loss += p * self->lossFn(inner, self->labels[k]) ;
     if (self->solver == VlSvmSolverSdca) {
 
-- 
2.43.0


From 5a50cad0d631af39b1437865e2f0d316db1cb846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 034/181] fix: svm: SGD honours the iteration number set for a
 warm start

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 1936745..bcd6d8f 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -2084,7 +2084,7 @@ void _vl_svm_sgd_train (VlSvm *self)
     scores[i] = inner ;
 
     /* apply update */
-    rate = 1.0 /  (self->lambda * (t + t0)) ;
+    rate = 1.0 /  (self->lambda * (t + self->iteration + t0)) ;
     biasRate = rate * self->biasLearningRate ;
     factor *= (1.0 - self->lambda * rate) ;
     biasFactor *= (1.0 - self->lambda * biasRate) ;
-- 
2.43.0


From 7d58a3b9ba9e34c6922e4043a4df5b6e2521bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 035/181] fix: homkermap: the octave from 2^-20 is part of the
 table

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index d7e4e9c..702c176 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -544,7 +544,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   exponent -- ;
 
   if (mantissa == 0 ||
-      exponent <= self->minExponent ||
+      exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
       *destination = (T) 0.0 ;
-- 
2.43.0


From 2425be5ee5411e06a0eed13d3ec13eab5afb5579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:12 +0000
Subject: [PATCH 036/181] fix: homkermap: a null period selects the default one

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 702c176..1d460f0 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -342,7 +342,7 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
   assert(windowType == VlHomogeneousKernelMapWindowUniform ||
          windowType == VlHomogeneousKernelMapWindowRectangular) ;
 
-  if (period < 0) {
+  if (period <= 0) {
     switch (windowType) {
     case VlHomogeneousKernelMapWindowUniform:
       switch (kernelType) {
-- 
2.43.0


From eeb4ad030178cddb2e452f9a152401285cb2da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:01 +0000
Subject: [PATCH 037/181] fix: svm: rounding in weighted SDCA left the domain
 of the conjugate loss

---
 vl/svm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index bcd6d8f..c2d19b6 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1937,7 +1937,7 @@ void _vl_svm_sdca_train (VlSvm *self)
   double * norm2 ;
   vl_index * permutation ;
   vl_uindex i, t  ;
-  double inner, delta, multiplier, p ;
+  double inner, alpha = 0, delta, multiplier, p ;
 
   double startTime = vl_get_cpu_time () ;
   VlRand * rand = vl_get_rand() ;
@@ -1973,14 +1973,18 @@ void _vl_svm_sdca_train (VlSvm *self)
     if (p > 0) {
       inner = self->innerProductFn(self->data, i, self->model) ;
       inner += self->bias * self->biasMultiplier ;
-      delta = p * self->dcaUpdateFn(self->alpha[i] / p, inner, p * norm2[i], self->labels[i]) ;
+      /* work with alpha/p, so that rounding does not move alpha
+         outside of the domain of the conjugate loss */
+      alpha = self->alpha[i] / p ;
+      alpha += self->dcaUpdateFn(alpha, inner, p * norm2[i], self->labels[i]) ;
+      delta = p * alpha - self->alpha[i] ;
     } else {
       delta = 0 ;
     }
 
     /* apply update */
     if (delta != 0) {
-      self->alpha[i] += delta ;
+      self->alpha[i] = p * alpha ;
       multiplier = delta / (self->numData * self->lambda) ;
       self->accumulateFn(self->data,i,self->model,multiplier) ;
       self->bias += self->biasMultiplier * multiplier;
-- 
2.43.0


From ba2ff2c15ed5b419adcb3c2828e79d0c21553839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 038/181] fix: svm: the logistic SDCA update stops short of
 optima close to 0 or 1

---
 vl/svm.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/vl/svm.c b/vl/svm.c
index c2d19b6..98c1943 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1852,14 +1852,29 @@ vl_svm_logistic_dca_update (double alpha, double inner, double norm2, double lab
   }
 
 #if 1
-  /* a final Newton step, but not too close to the singularities */
-  for (t = 0 ; (t < 2) & (beta > VL_EPSILON_D) & (beta < 1-VL_EPSILON_D) ; ++t) {
+  /* final Newton steps, but not too close to the singularities; a step
+     that leaves the bracket is replaced by a further bisection */
+  for (t = 0 ; (t < 30) & (beta > VL_EPSILON_D) & (beta < 1-VL_EPSILON_D) ; ++t) {
+    double step ;
     df = log(beta) - log(1-beta) ;
     ddf = 1 / (beta * (1-beta)) ;
     der = norm2 * beta + label * (inner - norm2*alpha) + df ;
     dder = norm2 + ddf ;
-    beta -= der / dder ;
-    beta = VL_MAX(0, VL_MIN(1, beta)) ;
+    if (der >= 0) {
+      beta2 = beta ;
+    } else {
+      beta1 = beta ;
+    }
+    step = der / dder ;
+    if (vl_abs_d(step) <= 1e-9 * beta * (1-beta)) {
+      beta -= step ;
+      break ;
+    }
+    if (beta1 < beta - step && beta - step < beta2) {
+      beta -= step ;
+    } else {
+      beta = 0.5 * (beta1 + beta2) ;
+    }
   }
 #endif
 
-- 
2.43.0


From bc89c65bc1e52de415c85d0f8e441107aad9de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:37 +0000
Subject: [PATCH 039/181] fix: svm: the l1 SDCA update of a null sample with
 null label is not a number

---
 vl/svm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 98c1943..287429d 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -1720,7 +1720,7 @@ vl_svm_l1_conjugate_loss (double u, double label) {
 double
 vl_svm_l1_dca_update (double alpha, double inner, double norm2, double label) {
   if (vl_abs_d(alpha) <= 1) {
-    double palpha = (label - inner) / norm2 + alpha ;
+    double palpha = (label != inner) ? (label - inner) / norm2 + alpha : alpha ;
     return VL_MAX(-1.0, VL_MIN(1.0, palpha)) - alpha ;
   } else {
     return VL_INFINITY_D ;
-- 
2.43.0


From 89e86bf601464bd6f3c52ebb56b0900eb4aa85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:07 +0000
Subject: [PATCH 040/181] fix: sift: a reused filter described the new image
 with old gradients

---
 vl/sift.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/sift.c b/vl/sift.c
index 03963fe..0e1d7b3 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -995,6 +995,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
   /* restart from the first */
   f->o_cur = o_min ;
   f->nkeys = 0 ;
+  f->grad_o = o_min - 1 ; /* the gradients of the previous image are stale */
   w = f-> octave_width  = VL_SHIFT_LEFT(f->width,  - f->o_cur) ;
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
 
-- 
2.43.0


From c773502de730964309b79a7edf78f0590eef8cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:07 +0000
Subject: [PATCH 041/181] fix: sift: fast_expn read past its table at the end
 of its range

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 0e1d7b3..080ee20 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -695,7 +695,7 @@ fast_expn (double x)
   int i ;
   /*assert(0 <= x && x <= EXPN_MAX) ;*/
 
-  if (x > EXPN_MAX) return 0.0 ;
+  if (x >= EXPN_MAX) return 0.0 ;
 
   x *= EXPN_SZ / EXPN_MAX ;
   i = (int)vl_floor_d (x) ;
-- 
2.43.0


From 45bfd656b300c95f24f391f21decdf40b3882963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 042/181] fix: sift: descriptors of keypoints on the last row
 were not written

---
 vl/sift.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 080ee20..0907e75 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1788,7 +1788,7 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   if(xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
-     yi    >= h -    1        )
+     yi    >= h               )
     return ;
 
   /* clear descriptor */
@@ -1978,7 +1978,7 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
      xi    <  0               ||
      xi    >= w               ||
      yi    <  0               ||
-     yi    >= h -    1        ||
+     yi    >= h               ||
      si    <  f->s_min + 1    ||
      si    >  f->s_max - 2     )
     return ;
-- 
2.43.0


From fde787eba018ffd68c7470822545d2bc7e592aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 043/181] fix: sift: gradients of one pixel wide octaves
 overflowed their buffer

---
 vl/sift.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/vl/sift.c b/vl/sift.c
index 0907e75..c860467 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1458,6 +1458,13 @@ update_gradient (VlSiftFilt *f)
 
   if (f->grad_o == f->o_cur) return ;
 
+  /* the differences below need two pixels in each direction */
+  if (w < 2 || h < 2) {
+    memset (f->grad, 0, sizeof(vl_sift_pix) * 2 * so * (s_max - s_min)) ;
+    f->grad_o = f->o_cur ;
+    return ;
+  }
+
   for (s  = s_min + 1 ;
        s <= s_max - 2 ; ++ s) {
 
-- 
2.43.0


From 1decbdc27eb5f1b3e9e1212258f02e7d12a6d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 044/181] fix: sift: components of faint descriptors could
 exceed one

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index c860467..ab595b5 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1717,7 +1717,7 @@ normalize_histogram
   for (iter = begin ; iter != end ; ++ iter)
     norm += (*iter) * (*iter) ;
 
-  norm = vl_fast_sqrt_f (norm) + VL_EPSILON_F ;
+  norm = sqrt (norm) + VL_EPSILON_F ;
 
   for (iter = begin; iter != end ; ++ iter)
     *iter /= norm ;
-- 
2.43.0


From 20702cc13114c34cc275c60f23971a109538d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:00 +0000
Subject: [PATCH 045/181] fix: dsift: components of faint descriptors could
 exceed one

---
 vl/dsift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 4819a1f..cf6c010 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -302,7 +302,7 @@ _vl_dsift_normalize_histogram (float * begin, float * end)
   for (iter = begin ; iter < end ; ++ iter) {
     norm += (*iter) * (*iter) ;
   }
-  norm = vl_fast_sqrt_f (norm) + VL_EPSILON_F ;
+  norm = sqrtf (norm) + VL_EPSILON_F ;
 
   for (iter = begin; iter < end ; ++ iter) {
     *iter /= norm ;
-- 
2.43.0


From d3b8f35982493d2e43090269759948fe43e8ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:17 +0000
Subject: [PATCH 046/181] fix: sift: non square images were scrambled by first
 octaves below -1

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index ab595b5..38d0d4e 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1025,7 +1025,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
       copy_and_upsample_rows (temp, octave,
                               width << -o,      height << -o ) ;
       copy_and_upsample_rows (octave, temp,
-                              width << -o, 2 * (height << -o)) ;
+                              height << -o, 2 * (width << -o)) ;
     }
   }
   else if (o_min > 0) {
-- 
2.43.0


From 8523aa705e536554df723fff0948b99bf626d755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:20 +0000
Subject: [PATCH 047/181] fix: dsift: with one orientation bin only part of the
 gradient was counted

---
 vl/dsift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index cf6c010..574ca3a 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -713,7 +713,7 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
 
       /* write it back */
       self->grads [(bint    ) % self->geom.numBinT][x + y * self->imWidth] = (1 - rbint) * mod ;
-      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] = (    rbint) * mod ;
+      self->grads [(bint + 1) % self->geom.numBinT][x + y * self->imWidth] += (    rbint) * mod ;
     }
   }
 
-- 
2.43.0


From addef38272d570fa64341f5b5f8ed3cedecfa659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:23 +0000
Subject: [PATCH 048/181] fix: dsift: gradients of one pixel wide images were
 read out of bounds

---
 vl/dsift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 574ca3a..3930752 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -685,7 +685,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       int bint ;
 
       /* y derivative */
-      if (y == 0) {
+      if (self->imHeight == 1) {
+        gy = 0 ;
+      } else if (y == 0) {
         gy = at(x,y+1) - at(x,y) ;
       } else if (y == self->imHeight - 1) {
         gy = at(x,y) - at(x,y-1) ;
@@ -694,7 +696,9 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
       }
 
       /* x derivative */
-      if (x == 0) {
+      if (self->imWidth == 1) {
+        gx = 0 ;
+      } else if (x == 0) {
         gx = at(x+1,y) - at(x,y) ;
       } else if (x == self->imWidth - 1) {
         gx = at(x,y) - at(x-1,y) ;
-- 
2.43.0


From b3c3ddac68561e9cfdf76500f7a2f4ad4f08a037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 049/181] fix: hog: bilinear orientation weights of polar
 fields were squared

---
 vl/hog.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vl/hog.c b/vl/hog.c
index 0a14875..34a2da0 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -818,8 +818,6 @@ void vl_hog_put_polar_field (VlHog * self,
 
         wx1 *= orientationWeights[o] ;
         wx2 *= orientationWeights[o] ;
-        wy1 *= orientationWeights[o] ;
-        wy2 *= orientationWeights[o] ;
 
         /*VL_PRINTF("%d %d - %d %d %f %f - %f %f %f %f - %d \n ",x,y,binx,biny,hx,hy,wx1,wx2,wy1,wy2,o);*/
 
-- 
2.43.0


From 5b2e1c2f94b4a3d3eefb577c04e73101f2532969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 050/181] fix: hog: rendering accumulated on the previous
 content of the image

---
 vl/hog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/hog.c b/vl/hog.c
index 34a2da0..f9109ba 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -440,6 +440,8 @@ vl_hog_render (VlHog const * self,
   assert(width > 0) ;
   assert(height > 0) ;
 
+  memset(image, 0, sizeof(float) * width * height * self->glyphSize * self->glyphSize) ;
+
   for (y = 0 ; y < (signed)height ; ++y) {
     for (x = 0 ; x < (signed)width ; ++x) {
       float minWeight = 0 ;
-- 
2.43.0


From 34362099175a52eac21d42b3acdb807607be8026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 051/181] fix: hog: extracting features twice normalised them
 twice

---
 vl/hog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/hog.c b/vl/hog.c
index f9109ba..bb54c10 100644
--- a/vl/hog.c
+++ b/vl/hog.c
@@ -869,6 +869,7 @@ vl_hog_extract (VlHog * self, float * features)
    */
   {
     float const * iter = self->hog ;
+    memset(self->hogNorm, 0, sizeof(float) * hogStride) ;
     for (k = 0 ; k < self->numOrientations ; ++k) {
       float * niter = self->hogNorm ;
       float * niterEnd = self->hogNorm + self->hogWidth * self->hogHeight ;
-- 
2.43.0


From 99bbf1d7963804658d89c8b1d79f98392ab8a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 052/181] fix: liop: patches with fewer pixels than spatial
 bins did not fill the last one

---
 vl/liop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/liop.c b/vl/liop.c
index ae788ec..ae5dfc2 100644
--- a/vl/liop.c
+++ b/vl/liop.c
@@ -488,7 +488,7 @@ vl_liopdesc_process (VlLiopDesc * self, float * desc, float const * patch)
     double *sx, *sy ;
 
     /* advance to the next spatial bin if needed */
-    if (i >= (signed)spatialBinEnd && spatialBinIndex < (signed)self->numSpatialBins - 1) {
+    while (i >= (signed)spatialBinEnd && spatialBinIndex < (signed)self->numSpatialBins - 1) {
       spatialBinEnd += spatialBinArea ;
       spatialBinIndex ++ ;
       offset += numPermutations ;
-- 
2.43.0


From 74cab33a8ae52f40ec60f8521e6e70b72e65badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:37 +0000
Subject: [PATCH 053/181] fix: liop: non integer radii sampled outside of the
 patch

---
 vl/liop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/liop.c b/vl/liop.c
index ae5dfc2..7d29163 100644
--- a/vl/liop.c
+++ b/vl/liop.c
@@ -353,6 +353,7 @@ vl_liopdesc_new (vl_int numNeighbours, vl_int numSpatialBins,
         vl_index dx = x - center ;
         vl_index dy = y - center ;
         if (x == 0 && y == 0) continue ;
+        if (VL_MAX(vl_abs_d(dx), vl_abs_d(dy)) + radius > center) continue ;
         if (dx*dx + dy*dy <= t2) {
           self->patchPixels[self->patchSize++] = x + y * sideLength ;
         }
-- 
2.43.0


From 25969648931ce0787c34abc52e3b9c0847c54d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 054/181] fix: scalespace: geometries were compared by the
 wrong subdivisions

---
 vl/scalespace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 962f285..5cef333 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -343,7 +343,8 @@ vl_scalespacegeometry_is_equal (VlScaleSpaceGeometry a,
   a.firstOctave == b.firstOctave &&
   a.lastOctave == b.lastOctave &&
   a.octaveResolution == b.octaveResolution &&
-  a.octaveFirstSubdivision == b.octaveLastSubdivision &&
+  a.octaveFirstSubdivision == b.octaveFirstSubdivision &&
+  a.octaveLastSubdivision == b.octaveLastSubdivision &&
   a.baseScale == b.baseScale &&
   a.nominalScale == b.nominalScale ;
 }
-- 
2.43.0


From 2857719ba60a05c0d61f2090d374e8a28b55d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 055/181] fix: scalespace: downsampling images of odd height
 wrote past the level

---
 vl/scalespace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index 5cef333..d6d3a63 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -510,7 +510,7 @@ copy_and_downsample
   if (numOctaves == 0) {
     memcpy(destination, source, sizeof(float) * width * height) ;
   } else {
-    for(y = 0 ; y < (signed)height ; y += step) {
+    for(y = 0 ; y < (signed)height - ((signed)step - 1) ; y += step) {
       float const *p = source + y * width ;
       for(x = 0 ; x < (signed)width - ((signed)step - 1) ; x += step) {
         *destination++ = *p ;
-- 
2.43.0


From 773b9be51fcc742e8de4a665281ad4764230c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 056/181] fix: scalespace: octave zero was written even if not
 part of the scale space

---
 vl/scalespace.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index d6d3a63..ea291dd 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -716,14 +716,26 @@ _vl_scalespace_start_octave_from_image (VlScaleSpace *self,
    * downscaling as needed.
    */
 
-  level = vl_scalespace_get_level(self, VL_MAX(0, o), self->geom.octaveFirstSubdivision) ;
-  copy_and_downsample(level, image, self->geom.width, self->geom.height, VL_MAX(0, o)) ;
-
-  for (op = -1 ; op >= o ; --op) {
-    VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
-    float *succLevel = vl_scalespace_get_level(self, op + 1, self->geom.octaveFirstSubdivision) ;
-    level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
-    copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+  if (o >= 0) {
+    level = vl_scalespace_get_level(self, o, self->geom.octaveFirstSubdivision) ;
+    copy_and_downsample(level, image, self->geom.width, self->geom.height, o) ;
+  } else {
+    float const *succLevel = image ;
+    float *buffer = NULL ;
+    for (op = -1 ; op >= o ; --op) {
+      VlScaleSpaceOctaveGeometry ogeom = vl_scalespace_get_octave_geometry(self, op + 1) ;
+      float *succBuffer = buffer ;
+      buffer = NULL ;
+      if (op <= self->geom.lastOctave) {
+        level = vl_scalespace_get_level(self, op, self->geom.octaveFirstSubdivision) ;
+      } else {
+        /* the scale space does not store this octave */
+        level = buffer = vl_malloc(sizeof(float) * 4 * ogeom.width * ogeom.height) ;
+      }
+      copy_and_upsample(level, succLevel, ogeom.width, ogeom.height) ;
+      if (succBuffer) vl_free(succBuffer) ;
+      succLevel = level ;
+    }
   }
 
   /*
-- 
2.43.0


From 36f51f88fa29fd09b7b6c082196537b03863e1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 057/181] fix: covdet: images smaller than the smallest octave
 crashed

---
 vl/covdet.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index d3cfa96..4335032 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1706,11 +1706,14 @@ vl_covdet_put_image (VlCovDet * self,
   assert (height >= 1) ;
 
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
-  lastOctave = vl_floor_d(vl_log2_d(VL_MIN((double)width-1,(double)height-1) / (minOctaveSize - 1))) ;
+  lastOctave = vl_floor_d(vl_log2_d(VL_MAX(VL_MIN((double)width-1,(double)height-1),1) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
       lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
   }
 
+  /* small images still have one octave */
+  lastOctave = VL_MAX(lastOctave, self->firstOctave) ;
+
   if (self->method == VL_COVDET_METHOD_DOG) {
     octaveFirstSubdivision = -1 ;
     octaveLastSubdivision = self->octaveResolution + 1 ;
@@ -1769,6 +1772,12 @@ _vl_det_hessian_response (float * hessian,
 
   float p11, p12, p13, p21, p22, p23, p31, p32, p33;
 
+  /* no pixel has all its neighbours */
+  if (width < 3 || height < 3) {
+    memset(hessian, 0, sizeof(float) * width * height) ;
+    return ;
+  }
+
   /* setup input pointer to be centered at 0,1 */
   float const *in = image + yo ;
 
-- 
2.43.0


From ac09152a4b9ada7e30b316005b0fe2067f483c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 058/181] fix: covdet: the number of octaves was off by twice
 the first octave

---
 vl/covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 4335032..17576cd 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1708,7 +1708,7 @@ vl_covdet_put_image (VlCovDet * self,
   /* (minOctaveSize - 1) 2^lastOctave <= min(width,height) - 1 */
   lastOctave = vl_floor_d(vl_log2_d(VL_MAX(VL_MIN((double)width-1,(double)height-1),1) / (minOctaveSize - 1))) ;
   if (self->numOctaves > 0) {
-      lastOctave = VL_MIN((vl_index)self->numOctaves - self->firstOctave - 1, lastOctave);
+      lastOctave = VL_MIN((vl_index)self->numOctaves + self->firstOctave - 1, lastOctave);
   }
 
   /* small images still have one octave */
-- 
2.43.0


From 3ee22b6de70b47bce832cdc18ae3a022dfffdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 059/181] fix: covdet: reset left the count and capacity of the
 released features

---
 vl/covdet.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index 17576cd..53a2b6c 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1623,6 +1623,8 @@ vl_covdet_reset (VlCovDet * self)
     vl_free(self->features) ;
     self->features = NULL ;
   }
+  self->numFeatures = 0 ;
+  self->numFeatureBufferSize = 0 ;
   if (self->css) {
     vl_scalespace_delete(self->css) ;
     self->css = NULL ;
-- 
2.43.0


From c4dc2e16549237dbdcb8889fe3388ea2864635f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:12 +0000
Subject: [PATCH 060/181] fix: covdet: padded patches overran the buffer and
 lost the last image column

---
 vl/covdet.c | 33 +++++----------------------------
 1 file changed, 5 insertions(+), 28 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 53a2b6c..ccbd41c 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2327,12 +2327,6 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
      
       vl_index xi, yi ;
 
-      /* compute the amount of l,r,t,b padding needed to complete the patch */
-      vl_index padx0 = VL_MAX(0, - x0i) ;
-      vl_index pady0 = VL_MAX(0, - y0i) ;
-      vl_index padx1 = VL_MAX(0, x1i - ((signed)width - 1)) ;
-      vl_index pady1 = VL_MAX(0, y1i - ((signed)height - 1)) ;
-
       /* make enough room for the patch */
       vl_index patchWidth = x1i - x0i + 1 ;
       vl_index patchHeight = y1i - y0i + 1 ;
@@ -2342,29 +2336,12 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
         if (err) return vl_set_last_error(VL_ERR_ALLOC, "Unable to allocate data.") ;
       }
 
-      if (pady0 < patchHeight - pady1) {
-        /* start by filling the central horizontal band */
-        for (yi = y0i + pady0 ; yi < y0i + patchHeight - pady1 ; ++ yi) {
-          float *dst = self->patch + (yi - y0i) * patchWidth ;
-          float const *src = level + yi * width + VL_MIN(VL_MAX(0, x0i),(signed)width-1) ;
-          for (xi = x0i ; xi < x0i + padx0 ; ++xi) *dst++ = *src ;
-          for ( ; xi < x0i + patchWidth - padx1 - 2 ; ++xi) *dst++ = *src++ ;
-          for ( ; xi < x0i + patchWidth ; ++xi) *dst++ = *src ;
-        }
-        /* now extend the central band up and down */
-        for (yi = 0 ; yi < pady0 ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + pady0 * patchWidth,
-                 patchWidth * sizeof(float)) ;
+      for (yi = y0i ; yi <= y1i ; ++yi) {
+        float *dst = self->patch + (yi - y0i) * patchWidth ;
+        float const *src = level + VL_MIN(VL_MAX(yi,0),(signed)height-1) * width ;
+        for (xi = x0i ; xi <= x1i ; ++xi) {
+          *dst++ = src [VL_MIN(VL_MAX(xi,0),(signed)width-1)] ;
         }
-        for (yi = patchHeight - pady1 ; yi < patchHeight ; ++yi) {
-          memcpy(self->patch + yi * patchWidth,
-                 self->patch + (patchHeight - pady1 - 1) * patchWidth,
-                 patchWidth * sizeof(float)) ;
-        }
-      } else {
-        /* should be handled better! */
-        memset(self->patch, 0, self->patchBufferSize) ;
       }
 #if 0
       {
-- 
2.43.0


From 61fce2c18ca0cba7fb9f58226fdde35b631efec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:12 +0000
Subject: [PATCH 061/181] fix: covdet: mirrored frames were warped with a
 negative smoothing

---
 vl/covdet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index ccbd41c..5026747 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2236,6 +2236,9 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
    Given the range of octave availables, do the best you can.
    */
 
+  /* the singular values are signed for mirrored frames */
+  d1 = vl_abs_d(d1) ;
+  d2 = vl_abs_d(d2) ;
   factor = 1.0 / VL_MIN(d1, d2) ;
 
   for (o = geom.firstOctave + 1 ; o <= geom.lastOctave ; ++o) {
-- 
2.43.0


From ec630792540ca88ca41a5782c7a31b56e5ba90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:12 +0000
Subject: [PATCH 062/181] fix: covdet: patches were warped from a less smooth
 level than the best one

---
 vl/covdet.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 5026747..064df68 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2242,7 +2242,7 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
   factor = 1.0 / VL_MIN(d1, d2) ;
 
   for (o = geom.firstOctave + 1 ; o <= geom.lastOctave ; ++o) {
-    s = vl_floor_d(vl_log2_d(sigma / (factor * geom.baseScale)) - o) ;
+    s = vl_floor_d((vl_log2_d(sigma / (factor * geom.baseScale)) - o) * geom.octaveResolution) ;
     s = VL_MAX(s, geom.octaveFirstSubdivision) ;
     s = VL_MIN(s, geom.octaveLastSubdivision) ;
     sigma_ = geom.baseScale * pow(2.0, o + (double)s / geom.octaveResolution) ;
@@ -2253,7 +2253,7 @@ vl_covdet_extract_patch_helper (VlCovDet * self,
     }
   }
   o = VL_MIN(o, geom.lastOctave) ;
-  s = vl_floor_d(vl_log2_d(sigma / (factor * geom.baseScale)) - o) ;
+  s = vl_floor_d((vl_log2_d(sigma / (factor * geom.baseScale)) - o) * geom.octaveResolution) ;
   s = VL_MAX(s, geom.octaveFirstSubdivision) ;
   s = VL_MIN(s, geom.octaveLastSubdivision) ;
   sigma_ = geom.baseScale * pow(2.0, o + (double)s / geom.octaveResolution) ;
-- 
2.43.0


From 2491cbce4f23d9f350243c30db49a1d4e7474a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:05 +0000
Subject: [PATCH 063/181] fix: covdet: a limit on the orientations kept the
 first ones rather than the strongest

---
 vl/covdet.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vl/covdet.c b/vl/covdet.c
index 064df68..bce652a 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -1478,7 +1478,7 @@ struct _VlCovDet
   vl_size patchBufferSize ;
 
   vl_bool transposed ;
-  VlCovDetFeatureOrientation orientations [VL_COVDET_MAX_NUM_ORIENTATIONS] ;
+  VlCovDetFeatureOrientation orientations [VL_COVDET_OR_NUM_ORIENTATION_HISTOGAM_BINS] ;
   VlCovDetFeatureLaplacianScale scales [VL_COVDET_MAX_NUM_LAPLACIAN_SCALES] ;
 
   vl_bool aaAccurateSmoothing ;
@@ -2835,8 +2835,6 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
       self->orientations[*numOrientations].score = h0 ;
       *numOrientations += 1 ;
       //VL_PRINTF("%d %g\n", *numOrientations, th) ;
-
-      if (*numOrientations >= self->maxNumOrientations) break ;
     }
   }
 
@@ -2846,6 +2844,9 @@ vl_covdet_extract_orientations_for_frame (VlCovDet * self,
         sizeof(VlCovDetFeatureOrientation),
         _vl_covdet_compare_orientations_descending) ;
 
+  /* keep the strongest ones */
+  *numOrientations = VL_MIN(*numOrientations, self->maxNumOrientations) ;
+
   return self->orientations ;
 }
 
-- 
2.43.0


From 69cd367b587eb68a8b89f39e1620aca069b0e0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:47 +0000
Subject: [PATCH 064/181] fix: mser: the trees were joined by the height of
 pixel zero, possibly not yet initialised

---
 vl/mser.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vl/mser.c b/vl/mser.c
index 4c55db2..c3d3497 100644
--- a/vl/mser.c
+++ b/vl/mser.c
@@ -555,8 +555,8 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
 
         vl_mser_pix nr_val = 0 ;
         vl_uint     nr_idx = 0 ;
-        int         hgt   = r [ r_idx] .height ;
-        int         n_hgt = r [nr_idx] .height ;
+        int         hgt ;
+        int         n_hgt ;
 
         /*
           Now we join the two subtrees rooted at
@@ -571,6 +571,9 @@ vl_mser_process (VlMserFilt* f, vl_mser_pix const* im)
          r_idx = climb(r,   idx) ;
         nr_idx = climb(r, n_idx) ;
 
+        hgt   = r [ r_idx] .height ;
+        n_hgt = r [nr_idx] .height ;
+
         /*
           At this point we have three possibilities:
 
-- 
2.43.0


From ba38fab2af6414886d6ac40bc68b68098d6a51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 065/181] fix: quickshift: processing a second time added to
 the density of the first

---
 vl/quickshift.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 802dbf2..8fc07f5 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -277,6 +277,9 @@ void vl_quickshift_process(VlQS * q)
     n = (vl_qs_type *) vl_calloc(N1*N2,   sizeof(vl_qs_type)) ;
   }
 
+  /* the density is accumulated below */
+  memset(E, 0, sizeof(vl_qs_type) * N1 * N2) ;
+
   R = (int) ceil (3 * sigma) ;
   tR = (int) ceil (tau) ;
 
-- 
2.43.0


From bfee0593dd04bc31e9e237cc8838d1099e98a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 066/181] fix: quickshift: medoid shift ignored the best
 neighbour if its score was negative

---
 vl/quickshift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index 8fc07f5..b4b1cfc 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -366,7 +366,7 @@ void vl_quickshift_process(VlQS * q)
     for (i2 = 0 ; i2 < N2 ; ++i2) {
       for (i1 = 0 ; i1 < N1 ; ++i1) {
 
-        vl_qs_type sc_best = 0  ;
+        vl_qs_type sc_best = - VL_QS_INF ;
         /* j1/j2 best are the best indicies for each i */
         vl_qs_type j1_best = i1 ;
         vl_qs_type j2_best = i2 ;
-- 
2.43.0


From a5b8866d0f536a6c7837c38c43f87ecabcad2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 067/181] fix: pgm: every image with a valid maximum value was
 refused, invalid sizes accepted

---
 vl/pgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 72110a3..d610ca9 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -233,7 +233,7 @@ vl_pgm_extract_head (FILE* f, VlPgmImage *im)
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-  if(! (max_value >= 65536)) {
+  if (width < 0 || height < 0 || max_value < 1 || max_value >= 65536) {
     return vl_set_last_error(VL_ERR_PGM_INV_META, "Invalid PGM meta information");
   }
 
-- 
2.43.0


From 51a538afb57f0f81910f13a3d9a63bc126158cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 068/181] fix: pgm: a file with bad data was closed twice and
 the wrong block freed, a 16-bit one left open

---
 vl/pgm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index d610ca9..d8f8d0e 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -407,6 +407,7 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   if (vl_pgm_get_bpp(im) > 1) {
+    fclose (f) ;
     return vl_set_last_error(VL_ERR_BAD_ARG, "PGM with BPP > 1 not supported") ;
   }
 
@@ -414,8 +415,8 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
-    vl_free (data) ;
-    fclose (f) ;
+    vl_free (*data) ;
+    *data = NULL ;
   }
 
   fclose (f) ;
-- 
2.43.0


From cf022b21118c8493e9d69e54d6949c5d6697e2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 069/181] fix: pgm: the size of an image is taken from the
 file, but allocation was not checked

---
 vl/pgm.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vl/pgm.c b/vl/pgm.c
index d8f8d0e..8048633 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -412,6 +412,11 @@ int vl_pgm_read_new (char const *name, VlPgmImage *im, vl_uint8** data)
   }
 
   *data = vl_malloc (vl_pgm_get_npixels(im) * sizeof(vl_uint8)) ;
+  if (*data == NULL && vl_pgm_get_npixels(im) > 0) {
+    fclose (f) ;
+    return vl_set_last_error(VL_ERR_ALLOC, "Not enough memory for the PGM data") ;
+  }
+
   err = vl_pgm_extract_data(f, im, *data) ;
 
   if (err) {
@@ -454,6 +459,10 @@ int vl_pgm_read_new_f (char const *name,  VlPgmImage *im, float** data)
 
   npixels = vl_pgm_get_npixels(im) ;
   *data = vl_malloc (sizeof(float) * npixels) ;
+  if (*data == NULL && npixels > 0) {
+    vl_free (idata) ;
+    return vl_set_last_error(VL_ERR_ALLOC, "Not enough memory for the PGM data") ;
+  }
   {
     size_t k ;
     float scale = 1.0f / (float)im->max_value ;
-- 
2.43.0


From 599f424e6c471e1bffec7510f4279f4badd18485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 070/181] fix: pgm: an image that did not fit the disk was
 reported as written

---
 vl/pgm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vl/pgm.c b/vl/pgm.c
index 8048633..0f98ac1 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -504,7 +504,9 @@ int vl_pgm_write (char const *name, vl_uint8 const* data, int width, int height)
   pgm.max_value = 255 ;
 
   err = vl_pgm_insert (f, &pgm, data) ;
-  fclose (f) ;
+  if (fclose (f) && ! err) {
+    err = vl_set_last_error(VL_ERR_PGM_IO, "Error writing PGM file '%s'", name) ;
+  }
 
   return err ;
 }
-- 
2.43.0


From c9f0bd2537ad5f9157b3c24e9e7e8498ff4eb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 071/181] fix: drivers: the end of a binary frame file was
 taken for a malformed one

---
 src/generic-driver.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 2d74a44..692a8c1 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -170,7 +170,7 @@ vl_file_meta_put_double (VlFileMeta * self, double x)
   switch (self -> protocol) {
 
   case VL_PROT_ASCII :
-    err = fprintf (self -> file, "%g ", x) ;
+    err = fprintf (self -> file, "%g ", x) < 0 ;
     break ;
 
   case VL_PROT_BINARY :
@@ -206,7 +206,7 @@ vl_file_meta_put_uint8 (VlFileMeta *self, vl_uint8 x)
 
   case VL_PROT_ASCII :
     err = fprintf (self -> file, "%d ", x) ;
-    if (err) return VL_ERR_ALLOC ;
+    if (err < 0) return VL_ERR_ALLOC ;
     break ;
 
   case VL_PROT_BINARY :
@@ -251,7 +251,7 @@ vl_file_meta_get_double (VlFileMeta *self, double *x)
 
   case VL_PROT_BINARY :
     n = fread (&y, sizeof(double), 1, self -> file) ;
-    if (n < 1) return VL_ERR_BAD_ARG ;
+    if (n < 1) return feof (self -> file) ? VL_ERR_EOF : VL_ERR_BAD_ARG ;
     vl_swap_host_big_endianness_8 (x, &y) ;
     break ;
 
-- 
2.43.0


From 370a688e84dd0adbedf5adae35cbf0d74050d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 072/181] fix: sift: with a malformed header the driver went on
 with an uninitialised image

---
 src/sift.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 1de8f33..7bb21a2 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -480,8 +480,13 @@ main(int argc, char **argv)
         snprintf(err_msg, sizeof(err_msg),
                  "'%s' contains a malformed PGM header.", name) ;
         err = VL_ERR_IO ;
-        goto done ;
+        break ;
+
+      default :
+        snprintf(err_msg, sizeof(err_msg), "%s.", vl_get_last_error_message()) ;
+        break ;
       }
+      goto done ;
     }
 
     if (verbose)
-- 
2.43.0


From 0ffb17fed3ec2d044e6ba5809689592f0fe832b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 073/181] fix: drivers: the bytes of a 16-bit image were taken
 for its pixels

---
 src/mser.c | 7 +++++++
 src/sift.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mser.c b/src/mser.c
index 61cf75f..f9018df 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -359,6 +359,13 @@ main(int argc, char **argv)
              pim. height) ;
     }
 
+    if (vl_pgm_get_bpp (&pim) > 1) {
+      err = VL_ERR_BAD_ARG ;
+      snprintf(err_msg, sizeof(err_msg),
+               "'%s' has more than 8 bits per pixel.", name) ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
diff --git a/src/sift.c b/src/sift.c
index 7bb21a2..7146b0a 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -494,6 +494,13 @@ main(int argc, char **argv)
               pim. width,
               pim. height) ;
 
+    if (vl_pgm_get_bpp (&pim) > 1) {
+      err = VL_ERR_BAD_ARG ;
+      snprintf(err_msg, sizeof(err_msg),
+               "'%s' has more than 8 bits per pixel.", name) ;
+      goto done ;
+    }
+
     /* allocate buffer */
     data  = malloc(vl_pgm_get_npixels (&pim) *
                    vl_pgm_get_bpp       (&pim) * sizeof (vl_uint8)   ) ;
-- 
2.43.0


From 300526972b811c46a87c482f7270066c293d501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 074/181] fix: sift: large descriptor components wrapped around
 in the aggregate output

---
 src/sift.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 7146b0a..2be8723 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -752,7 +752,9 @@ main(int argc, char **argv)
             vl_file_meta_put_double (&out, k -> sigma ) ;
             vl_file_meta_put_double (&out, angles [q] ) ;
             for (l = 0 ; l < 128 ; ++l) {
-              vl_file_meta_put_uint8 (&out, (vl_uint8) (512.0 * descr [l])) ;
+              double x = 512.0 * descr[l] ;
+              x = (x < 255.0) ? x : 255.0 ;
+              vl_file_meta_put_uint8 (&out, (vl_uint8) (x)) ;
             }
             if (out.protocol == VL_PROT_ASCII) fprintf(out.file, "\n") ;
           }
-- 
2.43.0


From b73f2849895ef40275c07d55cde41ad9a539ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 075/181] fix: sift: an empty list of frames made the driver
 detect its own

---
 src/sift.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 2be8723..0a20aa9 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -644,7 +644,7 @@ main(int argc, char **argv)
       printf ("sift:   magnif                = %g\n",
               vl_sift_get_magnif       (filt)) ;
       printf ("sift: will source frames? %s\n",
-              ikeys ? "yes" : "no") ;
+              ifr.active ? "yes" : "no") ;
       printf ("sift: will force orientations? %s\n",
               force_orientations ? "yes" : "no") ;
     }
@@ -687,7 +687,7 @@ main(int argc, char **argv)
       }
 
       /* run detector ............................................. */
-      if (ikeys == 0) {
+      if (! ifr.active) {
         vl_sift_detect (filt) ;
 
         keys  = vl_sift_get_keypoints     (filt) ;
@@ -709,7 +709,7 @@ main(int argc, char **argv)
         VlSiftKeypoint const *k ;
 
         /* obtain keypoint orientations ........................... */
-        if (ikeys) {
+        if (ifr.active) {
           vl_sift_keypoint_init (filt, &ik,
                                  ikeys [4 * i + 0],
                                  ikeys [4 * i + 1],
-- 
2.43.0


From c77cf5263ecf52a8f54b68af289148177921692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:12 +0000
Subject: [PATCH 076/181] fix: sift: incomplete and non-finite frames were
 accepted from a frame file

---
 src/sift.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sift.c b/src/sift.c
index 0a20aa9..3eff9a4 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -25,6 +25,7 @@ the terms of the BSD license (see the COPYING file).
 #include <stdlib.h>
 #include <stdio.h>
 #include <assert.h>
+#include <math.h>
 
 /* ----------------------------------------------------------------- */
 /* help message */
@@ -566,14 +567,22 @@ main(int argc, char **argv)
         else QERR ;
         err = vl_file_meta_get_double (&ifr, &y ) ; QERR ;
         err = vl_file_meta_get_double (&ifr, &s ) ; QERR ;
-        err = vl_file_meta_get_double (&ifr, &th) ;
-        if   (err == VL_ERR_EOF) break;
-        else QERR ;
+        err = vl_file_meta_get_double (&ifr, &th) ; QERR ;
+
+        /* the geometry of a frame must be representable */
+        err = ! (fabs (x) <= 1e6 && fabs (y) <= 1e6 &&
+                 s > 0 && s <= 1e6 && fabs (th) <= 1e6) ; QERR ;
 
         /* make enough space */
         if (ikeys_size < nikeys + 1) {
           ikeys_size += 10000 ;
           ikeys       = realloc (ikeys, 4 * sizeof(double) * ikeys_size) ;
+          if (! ikeys) {
+            err = VL_ERR_ALLOC ;
+            snprintf(err_msg, sizeof(err_msg),
+                     "Could not allocate enough memory.") ;
+            goto done ;
+          }
         }
 
         /* add the guy to the buffer */
-- 
2.43.0


From d434e21193365565e3e386956fd4bde1a5aae494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 077/181] fix: sift: qsort was called without an array for an
 empty list of frames

---
 src/sift.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 3eff9a4..3bc849b 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -595,7 +595,9 @@ main(int argc, char **argv)
       }
 
       /* now order by scale */
-      qsort (ikeys, nikeys, 4 * sizeof(double), korder) ;
+      if (nikeys > 0) {
+        qsort (ikeys, nikeys, 4 * sizeof(double), korder) ;
+      }
 
       if (verbose) {
         printf ("sift: read %d keypoints from '%s'\n", nikeys, ifr.name) ;
-- 
2.43.0


From 76b1e33cef5a9a9d903ffe2adb7c8ff8e1dfaa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:59 +0000
Subject: [PATCH 078/181] fix: sift: the descriptor of a keypoint outside the
 image was left uninitialised

---
 vl/sift.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index 38d0d4e..fc98513 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1980,6 +1980,9 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(k->o  != f->o_cur        ||
      xi    <  0               ||
@@ -1995,9 +1998,6 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
 
   /* VL_PRINTF("W = %d ; magnif = %g ; SBP = %g\n", W,magnif,SBP) ; */
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
-- 
2.43.0


From a187cf31dc3e1f8da46e435c1a1b388bcf712fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 079/181] fix: sift: the windows of very large keypoints
 overflowed an integer

---
 vl/sift.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index fc98513..505514b 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1585,7 +1585,8 @@ vl_sift_calc_keypoint_orientations (VlSiftFilt *f,
   int          si     = k-> is ;
 
   double const sigmaw = winf * sigma ;
-  int          W      = VL_MAX(floor (3.0 * sigmaw), 1) ;
+  /* a window larger than this covers the whole image anyway */
+  int          W      = VL_MIN(VL_MAX(floor (3.0 * sigmaw), 1), w + h) ;
 
   int          nangles= 0 ;
 
@@ -1780,8 +1781,9 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   double const st0    = sin (angle0) ;
   double const ct0    = cos (angle0) ;
   double const SBP    = magnif * sigma + VL_EPSILON_D ;
-  int    const W      = floor
-    (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5) ;
+  /* a window larger than w + h covers the whole image anyway */
+  int    const W      = VL_MIN
+    (floor (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5), w + h) ;
 
   int const binto = 1 ;          /* bin theta-stride */
   int const binyo = NBO * NBP ;  /* bin y-stride */
@@ -1791,6 +1793,9 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
   vl_sift_pix const *pt ;
   vl_sift_pix       *dpt ;
 
+  /* clear descriptor */
+  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
+
   /* check bounds */
   if(xi    <  0               ||
      xi    >= w               ||
@@ -1798,9 +1803,6 @@ vl_sift_calc_raw_descriptor (VlSiftFilt const *f,
      yi    >= h               )
     return ;
 
-  /* clear descriptor */
-  memset (descr, 0, sizeof(vl_sift_pix) * NBO*NBP*NBP) ;
-
   /* Center the scale space and the descriptor on the current keypoint.
    * Note that dpt is pointing to the bin of center (SBP/2,SBP/2,0).
    */
@@ -1969,8 +1971,9 @@ vl_sift_calc_keypoint_descriptor (VlSiftFilt *f,
   double const st0         = sin (angle0) ;
   double const ct0         = cos (angle0) ;
   double const SBP         = magnif * sigma + VL_EPSILON_D ;
-  int    const W           = floor
-    (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5) ;
+  /* a window larger than w + h covers the whole image anyway */
+  int    const W           = VL_MIN
+    (floor (sqrt(2.0) * SBP * (NBP + 1) / 2.0 + 0.5), w + h) ;
 
   int const binto = 1 ;          /* bin theta-stride */
   int const binyo = NBO * NBP ;  /* bin y-stride */
-- 
2.43.0


From 8ca4bad0b8b6118c34fa23dde902a7f79007fa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 080/181] fix: sift: downsampling wrote one row too many when
 the height is not a multiple of the step

---
 vl/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index 505514b..c0f36a7 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -841,7 +841,7 @@ copy_and_downsample
   int x, y ;
 
   d = 1 << d ; /* d = 2^d */
-  for(y = 0 ; y < height ; y+=d) {
+  for(y = 0 ; y < height - (d-1) ; y+=d) {
     vl_sift_pix const * srcrowp = src + y * width ;
     for(x = 0 ; x < width - (d-1) ; x+=d) {
       *dst++ = *srcrowp ;
-- 
2.43.0


From d9ed05162429cadb46a4fc050a840358e3d5a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 081/181] fix: sift: octaves deeper than the image allows were
 computed from empty levels

---
 vl/sift.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vl/sift.c b/vl/sift.c
index c0f36a7..ec22ab6 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -1000,7 +1000,7 @@ vl_sift_process_first_octave (VlSiftFilt *f, vl_sift_pix const *im)
   h = f-> octave_height = VL_SHIFT_LEFT(f->height, - f->o_cur) ;
 
   /* is there at least one octave? */
-  if (f->O == 0)
+  if (f->O == 0 || w == 0 || h == 0)
     return VL_ERR_EOF ;
 
   /* ------------------------------------------------------------------
@@ -1107,6 +1107,11 @@ vl_sift_process_next_octave (VlSiftFilt *f)
   s_best = VL_MIN(s_min + S, s_max) ;
   w      = vl_sift_get_octave_width  (f) ;
   h      = vl_sift_get_octave_height (f) ;
+
+  /* the next octave has no pixels */
+  if (w < 2 || h < 2)
+    return VL_ERR_EOF ;
+
   pt     = vl_sift_get_octave        (f, s_best) ;
   octave = vl_sift_get_octave        (f, s_min) ;
 
-- 
2.43.0


From 2cb0714db6a41d8ecdd9e8a1a7f54bd12cdcc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 082/181] fix: drivers: empty option arguments were accepted,
 as were scale spaces without levels

---
 src/mser.c | 14 +++++++-------
 src/sift.c | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index f9018df..5f285a7 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,7 +164,7 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n == 0 || delta < 0)
+      if (n < 1 || delta < 0)
         ERRF("The argument of '%s' must be a non-negative number.",
             argv [optind - 1]) ;
       break ;
@@ -172,25 +172,25 @@ main(int argc, char **argv)
       /* ........................................................... */
     case opt_max_area :
       n = sscanf (optarg, "%lf", &max_area) ;
-      if (n == 0 || max_area < 0 || max_area > 1)
+      if (n < 1 || max_area < 0 || max_area > 1)
         ERR("max-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_min_area :
       n = sscanf (optarg, "%lf", &min_area) ;
-      if (n == 0 || min_area < 0 || min_area > 1)
+      if (n < 1 || min_area < 0 || min_area > 1)
         ERR("min-area argument must be in the [0,1] range.") ;
       break ;
 
     case opt_max_variation :
       n = sscanf (optarg, "%lf", &max_variation) ;
-      if (n == 0 || max_variation < 0)
+      if (n < 1 || max_variation < 0)
         ERR("max-variation argument must be non-negative.") ;
       break ;
 
     case opt_min_diversity :
       n = sscanf (optarg, "%lf", &min_diversity) ;
-      if (n == 0 || min_diversity < 0 || min_diversity > 1)
+      if (n < 1 || min_diversity < 0 || min_diversity > 1)
         ERR("min-diversity argument must be in the [0,1] range.") ;
       break ;
 
@@ -218,13 +218,13 @@ main(int argc, char **argv)
 
     case opt_bright :
       n = sscanf (optarg, "%d", &bright_on_dark) ;
-      if (n == 0 || (bright_on_dark != 0 && bright_on_dark != 1))
+      if (n < 1 || (bright_on_dark != 0 && bright_on_dark != 1))
         ERR("bright_on_dark must be 0 or 1.") ;
       break ;
 
     case opt_dark :
       n = sscanf (optarg, "%d", &dark_on_bright) ;
-      if (n == 0 || (dark_on_bright != 0 && dark_on_bright != 1))
+      if (n < 1 || (dark_on_bright != 0 && dark_on_bright != 1))
         ERR("dark_on_bright must be 0 or 1.") ;
       break ;
 
diff --git a/src/sift.c b/src/sift.c
index 3bc849b..491c048 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -309,7 +309,7 @@ main(int argc, char **argv)
     case 'O' :
       /* --octaves ............................................... */
       n = sscanf (optarg, "%d", &O) ;
-      if (n == 0 || O < 0)
+      if (n < 1 || O < 0)
         ERRF("The argument of '%s' must be a non-negative integer.",
             argv [optind - 1]) ;
       break ;
@@ -317,15 +317,15 @@ main(int argc, char **argv)
     case 'S' :
       /* --levels ............................................... */
       n = sscanf (optarg, "%d", &S) ;
-      if (n == 0 || S < 0)
-        ERRF("The argument of '%s' must be a non-negative integer.",
+      if (n < 1 || S < 1)
+        ERRF("The argument of '%s' must be a positive integer.",
             argv [optind - 1]) ;
       break ;
 
     case opt_first_octave :
       /* --first-octave ......................................... */
       n = sscanf (optarg, "%d", &omin) ;
-      if (n == 0)
+      if (n < 1)
         ERRF("The argument of '%s' must be an integer.",
             argv [optind - 1]) ;
       break ;
@@ -335,7 +335,7 @@ main(int argc, char **argv)
     case opt_edge_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &edge_thresh) ;
-      if (n == 0 || edge_thresh < 1)
+      if (n < 1 || edge_thresh < 1)
         ERRF("The argument of '%s' must be not smaller than 1.",
             argv [optind - 1]) ;
       break ;
@@ -343,7 +343,7 @@ main(int argc, char **argv)
     case opt_peak_thresh :
       /* --edge-thresh ........................................... */
       n = sscanf (optarg, "%lf", &peak_thresh) ;
-      if (n == 0 || peak_thresh < 0)
+      if (n < 1 || peak_thresh < 0)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
@@ -351,7 +351,7 @@ main(int argc, char **argv)
     case opt_magnif :
       /* --magnif  .............................................. */
       n = sscanf (optarg, "%lf", &magnif) ;
-      if (n == 0 || magnif < 1)
+      if (n < 1 || magnif < 1)
         ERRF("The argument of '%s' must be a non-negative float.",
             argv [optind - 1]) ;
       break ;
-- 
2.43.0


From 677168d74fd7c4bd19c78218876ac39568bb6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 083/181] fix: sift: extreme first octaves and numbers of
 levels overflowed the sizes of the scale space

---
 src/sift.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/sift.c b/src/sift.c
index 491c048..b70b3bd 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -25,6 +25,7 @@ the terms of the BSD license (see the COPYING file).
 #include <stdlib.h>
 #include <stdio.h>
 #include <assert.h>
+#include <limits.h>
 #include <math.h>
 
 /* ----------------------------------------------------------------- */
@@ -502,6 +503,20 @@ main(int argc, char **argv)
       goto done ;
     }
 
+    /* the library indexes the scale space by integers */
+    {
+      double scale  = pow (2.0, - omin) ;
+      double width  = floor (pim.width * scale) ;
+      double height = floor (pim.height * scale) ;
+      double nlevels = VL_MAX(S + 2.0, 2.0 * S - 2.0) ;
+      if (width < 1 || height < 1 || width * height * nlevels > INT_MAX) {
+        err = VL_ERR_BAD_ARG ;
+        snprintf(err_msg, sizeof(err_msg),
+                 "The scale space of '%s' is empty or too large.", name) ;
+        goto done ;
+      }
+    }
+
     /* allocate buffer */
     data  = malloc(vl_pgm_get_npixels (&pim) *
                    vl_pgm_get_bpp       (&pim) * sizeof (vl_uint8)   ) ;
-- 
2.43.0


From d6159557073695e2c0bcfb026a0e23e6776308c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 084/181] fix: drivers: failed allocations were checked after
 their use or not reported

---
 src/mser.c | 9 +++++----
 src/sift.c | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index 5f285a7..24cd25b 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -393,6 +393,7 @@ main(int argc, char **argv)
     filtinv = vl_mser_new (ndims, dims) ;
 
     if (!filt || !filtinv) {
+      err = VL_ERR_ALLOC ;
       snprintf(err_msg, sizeof(err_msg),
               "Could not create an MSER filter.") ;
       goto done ;
@@ -452,10 +453,6 @@ main(int argc, char **argv)
       /* allocate buffer */
       datainv = malloc(vl_pgm_get_npixels (&pim) *
                   vl_pgm_get_bpp       (&pim)) ;
-      for (i = 0; i < (signed)vl_pgm_get_npixels (&pim); i++) {
-        datainv[i] = ~data[i]; /* 255 - data[i] */
-      }
-
       if (!datainv) {
         err = VL_ERR_ALLOC ;
         snprintf(err_msg, sizeof(err_msg),
@@ -463,6 +460,10 @@ main(int argc, char **argv)
         goto done ;
       }
 
+      for (i = 0; i < (signed)vl_pgm_get_npixels (&pim); i++) {
+        datainv[i] = ~data[i]; /* 255 - data[i] */
+      }
+
       vl_mser_process (filtinv, (vl_mser_pix*) datainv) ;
 
       /* Save result  ----------------------------------------------- */
diff --git a/src/sift.c b/src/sift.c
index b70b3bd..325a869 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -644,10 +644,6 @@ main(int argc, char **argv)
 
     filt = vl_sift_new (pim.width, pim.height, O, S, omin) ;
 
-    if (edge_thresh >= 0) vl_sift_set_edge_thresh (filt, edge_thresh) ;
-    if (peak_thresh >= 0) vl_sift_set_peak_thresh (filt, peak_thresh) ;
-    if (magnif      >= 0) vl_sift_set_magnif      (filt, magnif) ;
-
     if (!filt) {
       snprintf (err_msg, sizeof(err_msg),
                 "Could not create SIFT filter.") ;
@@ -655,6 +651,10 @@ main(int argc, char **argv)
       goto done ;
     }
 
+    if (edge_thresh >= 0) vl_sift_set_edge_thresh (filt, edge_thresh) ;
+    if (peak_thresh >= 0) vl_sift_set_peak_thresh (filt, peak_thresh) ;
+    if (magnif      >= 0) vl_sift_set_magnif      (filt, magnif) ;
+
     if (verbose > 1) {
       printf ("sift: filter settings:\n") ;
       printf ("sift:   octaves      (O)     = %d\n",
-- 
2.43.0


From 7b9df3e46958d0db848fc2deb01ddaac15c17ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:48 +0000
Subject: [PATCH 085/181] fix: mser: a delta beyond the range of a pixel was
 converted to an arbitrary one

---
 src/mser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index 24cd25b..6a95ecf 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -164,8 +164,8 @@ main(int argc, char **argv)
       /* .......................................................... */
     case 'd' :
       n = sscanf (optarg, "%lf", &delta) ;
-      if (n < 1 || delta < 0)
-        ERRF("The argument of '%s' must be a non-negative number.",
+      if (n < 1 || delta < 0 || delta > 255)
+        ERRF("The argument of '%s' must be a number in the [0,255] range.",
             argv [optind - 1]) ;
       break ;
 
-- 
2.43.0


From 21405ef4442279b75191b6f09ce1c4a7316ceab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:18 +0000
Subject: [PATCH 086/181] fix: mser: a binary output format was accepted, but
 text was written

---
 src/mser.c | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/mser.c b/src/mser.c
index 6a95ecf..7b3ede6 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -83,6 +83,39 @@ struct option const longopts [] = {
 } ;
 
 
+/* ----------------------------------------------------------------- */
+/** @brief Write a region seed in the format of the file
+ ** @internal
+ **/
+static void
+write_seed (VlFileMeta * fm, vl_int32 seed)
+{
+  if (fm->protocol == VL_PROT_BINARY) {
+    vl_int32 swapped ;
+    vl_swap_host_big_endianness_4 (&swapped, &seed) ;
+    fwrite (&swapped, sizeof(swapped), 1, fm->file) ;
+  } else {
+    fprintf (fm->file, "%d ", seed) ;
+  }
+}
+
+/** @brief Write an elliptical frame in the format of the file
+ ** @internal
+ **/
+static void
+write_frame (VlFileMeta * fm, float const * frame, int dof)
+{
+  int j ;
+  for (j = 0 ; j < dof ; ++j) {
+    if (fm->protocol == VL_PROT_BINARY) {
+      vl_file_meta_put_double (fm, frame [j]) ;
+    } else {
+      fprintf (fm->file, "%f ", frame [j]) ;
+    }
+  }
+  if (fm->protocol != VL_PROT_BINARY) fprintf (fm->file, "\n") ;
+}
+
 /* ----------------------------------------------------------------- */
 /** @brief MSER driver entry point
  **/
@@ -287,7 +320,7 @@ main(int argc, char **argv)
     enum            {ndims = 2} ;
     int              dims [ndims] ;
     int              nregions = 0, nregionsinv = 0, nframes = 0, nframesinv =0;
-    int              i, j, dof ;
+    int              i, dof ;
     vl_size          q ;
     FILE            *in = 0 ;
 
@@ -430,7 +463,7 @@ main(int argc, char **argv)
 
       if (piv.active) {
         for (i = 0 ; i < nregions ; ++i) {
-          fprintf(piv.file, "%d ", regions [i]) ;
+          write_seed (&piv, (vl_int32) regions [i]) ;
         }
       }
 
@@ -441,10 +474,7 @@ main(int argc, char **argv)
         dof     = vl_mser_get_ell_dof (filt) ;
         frames  = vl_mser_get_ell     (filt) ;
         for (i = 0 ; i < nframes ; ++i) {
-          for (j = 0 ; j < dof ; ++j) {
-            fprintf(frm.file, "%f ", *frames++) ;
-          }
-          fprintf(frm.file, "\n") ;
+          write_frame (&frm, frames + i * dof, dof) ;
         }
       }
     }
@@ -472,7 +502,7 @@ main(int argc, char **argv)
 
       if (piv.active) {
         for (i = 0 ; i < nregionsinv ; ++i) {
-          fprintf(piv.file, "%d ", -regionsinv [i]) ;
+          write_seed (&piv, - (vl_int32) regionsinv [i]) ;
         }
       }
 
@@ -483,10 +513,7 @@ main(int argc, char **argv)
         dof        = vl_mser_get_ell_dof (filtinv) ;
         framesinv  = vl_mser_get_ell     (filtinv) ;
         for (i = 0 ; i < nframesinv ; ++i) {
-          for (j = 0 ; j < dof ; ++j) {
-            fprintf(frm.file, "%f ", *framesinv++) ;
-          }
-          fprintf(frm.file, "\n") ;
+          write_frame (&frm, framesinv + i * dof, dof) ;
         }
       }
     }
-- 
2.43.0


From 46294cd14806bb668c6ef772f02fcabe4479bf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:18 +0000
Subject: [PATCH 087/181] fix: drivers: output that could not be written was
 not reported

---
 src/generic-driver.h | 10 ++++++++--
 src/mser.c           | 13 ++++++++++---
 src/sift.c           | 18 +++++++++++++-----
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 692a8c1..690f893 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -140,14 +140,20 @@ vl_file_meta_open (VlFileMeta * self, char const * basename, char const * mode)
 /** @brief Close the file associated to meta information
  **
  ** @param self File meta information.
+ **
+ ** @return error code. The function returns ::VL_ERR_IO if any of the
+ ** operations on the file failed.
  **/
-static void
+static int
 vl_file_meta_close (VlFileMeta * self)
 {
+  int err = 0 ;
   if (self -> file) {
-    fclose (self -> file) ;
+    err = ferror (self -> file) ;
+    if (fclose (self -> file)) err = 1 ;
     self -> file = 0 ;
   }
+  return err ? VL_ERR_IO : VL_ERR_OK ;
 }
 
 /* ----------------------------------------------------------------- */
diff --git a/src/mser.c b/src/mser.c
index 7b3ede6..c1fba89 100644
--- a/src/mser.c
+++ b/src/mser.c
@@ -558,9 +558,16 @@ main(int argc, char **argv)
       in = 0 ;
     }
 
-    vl_file_meta_close (&frm) ;
-    vl_file_meta_close (&piv) ;
-    vl_file_meta_close (&met) ;
+    {
+      int werr = 0 ;
+      werr |= vl_file_meta_close (&frm) ;
+      werr |= vl_file_meta_close (&piv) ;
+      werr |= vl_file_meta_close (&met) ;
+      if (werr && ! err) {
+        err = VL_ERR_IO ;
+        snprintf(err_msg, sizeof(err_msg), "Could not write the output.") ;
+      }
+    }
 
     /* if bad print error message */
     if (err) {
diff --git a/src/sift.c b/src/sift.c
index 325a869..94332c9 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -152,7 +152,8 @@ save_gss (VlSiftFilt * filt, VlFileMeta * fm, const char * basename,
       printf("sift: saved gss level to '%s'\n", fm -> name) ;
     }
 
-    vl_file_meta_close (fm) ;
+    err = vl_file_meta_close (fm) ;
+    if (err) goto save_gss_quit ;
   }
 
  save_gss_quit : ;
@@ -854,10 +855,17 @@ main(int argc, char **argv)
       in = 0 ;
     }
 
-    vl_file_meta_close (&out) ;
-    vl_file_meta_close (&frm) ;
-    vl_file_meta_close (&dsc) ;
-    vl_file_meta_close (&met) ;
+    {
+      int werr = 0 ;
+      werr |= vl_file_meta_close (&out) ;
+      werr |= vl_file_meta_close (&frm) ;
+      werr |= vl_file_meta_close (&dsc) ;
+      werr |= vl_file_meta_close (&met) ;
+      if (werr && ! err) {
+        err = VL_ERR_IO ;
+        snprintf(err_msg, sizeof(err_msg), "Could not write the output.") ;
+      }
+    }
     vl_file_meta_close (&gss) ;
     vl_file_meta_close (&ifr) ;
 
-- 
2.43.0


From 30cd2b3d2df6263d45e42714b19c4fe099c3d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:18 +0000
Subject: [PATCH 088/181] fix: sift: scale space levels were saved without
 limiting them to the range of a pixel

---
 src/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 94332c9..77bee8f 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -136,7 +136,7 @@ save_gss (VlSiftFilt * filt, VlFileMeta * fm, const char * basename,
 
     /* conversion */
     for (i = 0 ; i < w * h ; ++i) {
-      buffer [i] = (vl_uint8) pt [i] ;
+      buffer [i] = (vl_uint8) VL_MAX(VL_MIN(pt [i], 255.0F), 0.0F) ;
     }
 
     /* save */
-- 
2.43.0


From fa7783dfde734965c98da42f5b9aa23fd337e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:06 +0000
Subject: [PATCH 089/181] fix: sift: the smallest first octave could not be
 negated

---
 src/sift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sift.c b/src/sift.c
index 77bee8f..20bbe62 100644
--- a/src/sift.c
+++ b/src/sift.c
@@ -506,7 +506,7 @@ main(int argc, char **argv)
 
     /* the library indexes the scale space by integers */
     {
-      double scale  = pow (2.0, - omin) ;
+      double scale  = pow (2.0, - (double) omin) ;
       double width  = floor (pim.width * scale) ;
       double height = floor (pim.height * scale) ;
       double nlevels = VL_MAX(S + 2.0, 2.0 * S - 2.0) ;
-- 
2.43.0


From b31d0b8fbdbfedc3f282287f8b833e29acd6c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 090/181] fix: getopt_long: an argument given to an option that
 takes none was ignored

---
 vl/getopt_long.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vl/getopt_long.c b/vl/getopt_long.c
index d358987..20c42fa 100644
--- a/vl/getopt_long.c
+++ b/vl/getopt_long.c
@@ -207,6 +207,17 @@ getopt_long(int argc, char *const argv[],
             }
           }
 
+          /* the option does not take the argument specified with `=' */
+          else if (place[namelen] == '=') {
+            if (! has_colon && opterr)
+              fprintf(stderr,
+                      "%s: option does not take an argument -- %s\n",
+                      argv[0], place);
+            place   = EMSG ;
+            ret_val = BADCH ;
+            goto done_option ;
+          }
+
           /* determine return value */
           if (longopts[i].flag == NULL) {
             ret_val = longopts[i].val ;
-- 
2.43.0


From 0666fff711e9531b18450efa59b8341a7b0fed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 091/181] fix: drivers: a binary frame file cut within its last
 number was accepted

---
 src/generic-driver.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generic-driver.h b/src/generic-driver.h
index 690f893..ebacf99 100644
--- a/src/generic-driver.h
+++ b/src/generic-driver.h
@@ -256,8 +256,9 @@ vl_file_meta_get_double (VlFileMeta *self, double *x)
     break ;
 
   case VL_PROT_BINARY :
-    n = fread (&y, sizeof(double), 1, self -> file) ;
-    if (n < 1) return feof (self -> file) ? VL_ERR_EOF : VL_ERR_BAD_ARG ;
+    n = fread (&y, 1, sizeof(double), self -> file) ;
+    if (n == 0 && feof (self -> file)) return VL_ERR_EOF ;
+    if (n < sizeof(double)) return VL_ERR_BAD_ARG ;
     vl_swap_host_big_endianness_8 (x, &y) ;
     break ;
 
-- 
2.43.0


From a2741ddb75854adb63c65f74637d75a0eeaea13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 092/181] fix: vlmxIsMatrix reads the dimensions within their
 bounds

---
 toolbox/mexutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index d7559af..710e74d 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -412,7 +412,7 @@ vlmxIsMatrix (mxArray const * array, vl_index M, vl_index N)
   }
 
   /* ok if any dimension beyond the first two is singleton */
-  for (di = 2 ; ((unsigned)dimensions[di] == 1) && di < numDimensions ; ++ di) ;
+  for (di = 2 ; di < numDimensions && ((unsigned)dimensions[di] == 1) ; ++ di) ;
   return di == numDimensions ;
 }
 
-- 
2.43.0


From 47e06ae5ce8eb8beb053262e00f54872010291ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 093/181] fix: vlmxIsPlain does not accept sparse arrays, whose
 data is not laid out as the callers assume

---
 toolbox/mexutils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mexutils.h b/toolbox/mexutils.h
index 710e74d..4099b37 100644
--- a/toolbox/mexutils.h
+++ b/toolbox/mexutils.h
@@ -467,7 +467,7 @@ vlmxIsArray (mxArray const * array, vl_index numDimensions, vl_index* dimensions
  vlmxIsPlain (mxArray const * array)
  {
  return
-   vlmxIsReal (array) &&
+   vlmxIsReal (array) && ! mxIsSparse (array) &&
    vlmxIsOfClass (array, mxDOUBLE_CLASS) ;
  }
 
-- 
2.43.0


From bea13a5332b41763605f07ecdbc720cdae852bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 094/181] fix: vl_binsum rejects empty VALUES for non-empty
 INDEXES and indexes that are not numbers

---
 toolbox/misc/vl_binsum.def | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 4460c6d..cb94353 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -97,7 +97,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
   B_end = B_pt + KB ;
 
-  if ((KX != KB) && (KX > 1)) {
+  if ((KX != KB) && (KX != 1)) {
     vlmxError(vlmxErrInvalidArgument,
               "VALUES and INDEXES do not have the same number of elements nor VALUES is a scalar.") ;
   }
@@ -107,17 +107,17 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     while (B_pt < B_end) {
 
-      /* next bin to accumulate */
-      j = (vl_index)(*B_pt) - 1 ;
-
-      /* bin index out of bounds ?*/
-      if(j < -1 || j >= (signed) KH) {
+      /* bin index out of bounds (or not a number) ?*/
+      if(!((double)*B_pt > -1 && (double)*B_pt < (double)KH + 1)) {
         vlmxError(vlmxErrInconsistentData,
-                  "The index INDEXES(%"  VL_FMT_INDEX ") = %" VL_FMT_INDEX " is out of bound.",
+                  "The index INDEXES(%"  VL_FMT_INDEX ") = %g is out of bound.",
                   (vl_index)(B_pt - (__INDEX_T__ const *)mxGetData(B_array) + 1),
-                  j + 1) ;
+                  (double)*B_pt) ;
       }
 
+      /* next bin to accumulate */
+      j = (vl_index)(*B_pt) - 1 ;
+
       /* accumulate (but skip null indeces) */
       if (j >= 0) {
         H_pt[j] += *X_pt ;
@@ -236,17 +236,17 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     while (B_pt < B_end) {
 
-      /* next bin to accumulate */
-      j = (vl_index)(*B_pt) - 1;
-
-      /* index out of bounds? */
-      if(j < -1 || j >= (signed) KH) {
+      /* index out of bounds (or not a number)? */
+      if(!((double)*B_pt > -1 && (double)*B_pt < (double)KH + 1)) {
         vlmxError(vlmxErrInconsistentData,
-                  "The index INDEXES(%"  VL_FMT_INDEX ") = %" VL_FMT_INDEX " is out of bounds.",
+                  "The index INDEXES(%"  VL_FMT_INDEX ") = %g is out of bounds.",
                   (vl_index)(B_pt - (__INDEX_T__ * const)mxGetData(B_array)) + 1,
-                  j + 1) ;
+                  (double)*B_pt) ;
       }
 
+      /* next bin to accumulate */
+      j = (vl_index)(*B_pt) - 1;
+
       /* accumulate (but skip null indeces) */
       if (j >= 0) {
         H_pt [j * srd] += *X_pt ;
-- 
2.43.0


From d5f4828f6fbce7b22caf5ea75ea2cf6d8c86645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:52 +0000
Subject: [PATCH 095/181] fix: vl_binsum checks all the dimensions of INDEXES
 when it works along one dimension

---
 toolbox/misc/vl_binsum.def | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index cb94353..e491fb9 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -146,6 +146,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
     __INDEX_T__ const * B_nbrk ;
 
     vl_size srd ;
+    vl_size Bd ;
 
     /* We need to check a few more details about the matrices */
     if (d >= HD) {
@@ -163,7 +164,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     if (HD != BD) {
-      if (! (d == HD - 1) && BD == HD - 1) {
+      if (! ((d == HD - 1) && (BD == HD - 1))) {
         vlmxError(vlmxErrInconsistentData,
                   "ACCUMULATOR and INDEXES do not have the same number of dimensions.") ;
       }
@@ -180,7 +181,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
 
     srd = 1 ;
 
-    for(k = 0 ; k < (signed) XD ; ++k) {
+    for(k = 0 ; k < (signed) BD ; ++k) {
       if (KX > 1 &&  Xdims[k] != Bdims[k]) {
         vlmxError(vlmxErrInconsistentData,
                   "VALUES and INDEXES have incompatible dimensions.") ;
@@ -231,8 +232,9 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
      */
 
     KH     = Hdims[d] ;
+    Bd     = (d < BD) ? Bdims[d] : 1 ;
     B_brk  = B_pt + srd ;              /* next time case (b) */
-    B_nbrk = B_pt + srd * Bdims [d] ;  /* next time case (c) */
+    B_nbrk = B_pt + srd * Bd ;  /* next time case (c) */
 
     while (B_pt < B_end) {
 
@@ -261,7 +263,7 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
         B_brk += srd ;                     /* next time case (b) */
         H_pt  -= srd ;
         if (B_pt == B_nbrk) {              /* case (c) occurs */
-          B_nbrk += srd * Bdims[d] ;       /* next time case (c) */
+          B_nbrk += srd * Bd ;       /* next time case (c) */
           H_pt   += srd * Hdims[d] ;
         }
       }
-- 
2.43.0


From 75b79654b9c25b8238c24d8a26fd732c0c97c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 096/181] fix: vl_inthist counts and checks the labels of all
 the layers

---
 toolbox/misc/vl_inthist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index bab2143..c2a2167 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -147,11 +147,11 @@ mexFunction(int nout, mxArray *out[],
 
   /* If numLabels is not specified, guess it from LABELS */
   if (numLabels == 0) {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       numLabels = VL_MAX(numLabels, labelsPt [k]) ;
     }
   } else {
-    for (k = 0 ; k < width*height ; ++k) {
+    for (k = 0 ; k < width*height*numMaps ; ++k) {
       if (labelsPt [k] > numLabels) {
         mexErrMsgTxt("LABELS contains an element greater than NUMLABELS.") ;
       }
-- 
2.43.0


From 08aa0fc398a1598bf393ad421a385b838938544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 097/181] fix: vl_inthist gives each layer its own MASS

---
 toolbox/misc/vl_inthist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index c2a2167..66b8900 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -116,14 +116,14 @@ mexFunction(int nout, mxArray *out[],
         if (mxGetNumberOfDimensions(optArg) != numDims ||
             height != dimsPt [0] ||
             width  != dimsPt [1] ||
-            ((numDims > 2) && numMaps < dimsPt[2])) {
+            ((numDims > 2) && numMaps != dimsPt[2])) {
           mexErrMsgTxt("MASS must have the same dimensions of LABELS.") ;
         }
 
         /* the data is DOUBLE or UINT32 depending on the class of MASS */
         dataClass = mxGetClassID(optArg) ;
-        if (dataClass != mxDOUBLE_CLASS &&
-            dataClass != mxUINT32_CLASS) {
+        if ((dataClass != mxDOUBLE_CLASS &&
+             dataClass != mxUINT32_CLASS) || mxIsSparse(optArg)) {
           mexErrMsgTxt("MASS must be of either class DOUBLE or UINT32.") ;
         }
         break ;
@@ -189,7 +189,7 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < K ; ++ k) {                                      \
         size_t label = *labelsPt++ ;                                    \
         if (label) dataPt [k + (label - 1) * K]                         \
-                     += ((T*)massPt) [k] ;                              \
+                     += ((T*)massPt) [k + q * K] ;                              \
       }                                                                 \
     }                                                                   \
   }                                                                     \
-- 
2.43.0


From e7acfbcf507afd97203e93452f7f6bf50a6ba0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 098/181] fix: vl_inthist does not integrate an empty label map

---
 toolbox/misc/vl_inthist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_inthist.c b/toolbox/misc/vl_inthist.c
index 66b8900..0bd1429 100644
--- a/toolbox/misc/vl_inthist.c
+++ b/toolbox/misc/vl_inthist.c
@@ -193,7 +193,7 @@ mexFunction(int nout, mxArray *out[],
       }                                                                 \
     }                                                                   \
   }                                                                     \
-  for (k = 0 ; k < numLabels ; ++k) {                                   \
+  for (k = 0 ; K > 0 && k < numLabels ; ++k) {                                   \
     INTEGRAL (dataPt + k*K, height,                                     \
               dataPt + k*K, height, width, height) ;                    \
   }
-- 
2.43.0


From d3bd4fa032144c0e4970879a4e0a5ec7a7e478e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 099/181] fix: vl_localmax handles arrays with an empty layer
 dimension and rejects P=0

---
 toolbox/misc/vl_localmax.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_localmax.c b/toolbox/misc/vl_localmax.c
index 39ef7d8..cddbdd8 100644
--- a/toolbox/misc/vl_localmax.c
+++ b/toolbox/misc/vl_localmax.c
@@ -49,7 +49,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* The input must be a real matrix. */
-  if (!mxIsDouble(in[F]) || mxIsComplex(in[F])) {
+  if (!vlmxIsPlain(in[F])) {
     mexErrMsgTxt("Input must be real matrix.");
   }
 
@@ -62,10 +62,12 @@ mexFunction(int nout, mxArray *out[],
 
   if(nin > 2) {
     if(!vlmxIsPlainScalar(in[P]))
-      mexErrMsgTxt("P must be a non-negative integer") ;
+      mexErrMsgTxt("P must be a positive integer") ;
+    if(! (*mxGetPr(in[P]) >= 1))
+      mexErrMsgTxt("P must be a positive integer") ;
+    if(*mxGetPr(in[P]) > mxGetNumberOfDimensions(in[F]))
+      mexErrMsgTxt("P must not be greater than the number of dimensions") ;
     pdims = (int) *mxGetPr(in[P])  ;
-    if(pdims < 0)
-      mexErrMsgTxt("P must be a non-negative integer") ;
   }
 
   ndims = mxGetNumberOfDimensions(in[F]) ;
@@ -173,6 +175,8 @@ mexFunction(int nout, mxArray *out[],
     */
     for(h=0 ; h < pdims ; ++h)
       if(dims[h] < 3) goto end ;
+    for(h=pdims ; h < ndims ; ++h)
+      if(dims[h] < 1) goto end ;
 
     while(VL_TRUE) {
       double v ;
-- 
2.43.0


From f6434c62088fd594d16dd0dfb98acb2967fa7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:48 +0000
Subject: [PATCH 100/181] fix: vl_imwbackward with two outputs does not write a
 third one

---
 toolbox/imop/vl_imwbackwardmx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index d9e8840..d0245a7 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -71,6 +71,7 @@ mexFunction(int nout, mxArray *out[],
     *wIy_pt   = 0 ;
 
   double Xmin, Xmax, Ymin, Ymax ;
+  mxArray *wIy_array = 0 ;
   const double NaN = mxGetNaN() ;
 
   /* -----------------------------------------------------------------
@@ -122,9 +123,10 @@ mexFunction(int nout, mxArray *out[],
 
   if (nout > 1) {
     out[wIx] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
-    out[wIy] = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
+    wIy_array = mxCreateDoubleMatrix(Mp, Np, mxREAL) ;
     wIx_pt = mxGetPr (out[wIx]) ;
-    wIy_pt = mxGetPr (out[wIy]) ;
+    wIy_pt = mxGetPr (wIy_array) ;
+    if (nout > 2) out[wIy] = wIy_array ;
   }
 
   /* -----------------------------------------------------------------
@@ -263,4 +265,6 @@ mexFunction(int nout, mxArray *out[],
       }
     }
   }
+
+  if (nout == 2) mxDestroyArray(wIy_array) ;
 }
-- 
2.43.0


From 731d3825eb1572c4f78d158ac9d18997f07c25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 101/181] fix: vl_binsum accepts INDEXES that lost several
 trailing singleton dimensions

---
 toolbox/misc/vl_binsum.def | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index e491fb9..250e5ab 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -155,18 +155,18 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
     }
 
     /*
-     Here either B has the same number of dimensions of H, or B has
-     exactly one dimension less and DIM=end.  The latter is a
-     special case due to the fact that MATLAB deletes singleton
-     dimensions at the ends of arrays, so it would be impossible to
-     operate with DIM=end and size(B,end)=1, which is a logically
-     acceptable case.
+     Here B and H have the same dimensions except for DIM. They can
+     still differ in number due to the fact that MATLAB deletes
+     singleton dimensions at the ends of arrays; the missing ones are
+     equal to one.
      */
 
-    if (HD != BD) {
-      if (! ((d == HD - 1) && (BD == HD - 1))) {
+    for (k = 0 ; k < (signed) VL_MAX(HD, BD) ; ++k) {
+      mwSize Hk = (k < (signed) HD) ? Hdims[k] : 1 ;
+      mwSize Bk = (k < (signed) BD) ? Bdims[k] : 1 ;
+      if (k != (signed) d && Hk != Bk) {
         vlmxError(vlmxErrInconsistentData,
-                  "ACCUMULATOR and INDEXES do not have the same number of dimensions.") ;
+                  "ACCUMULATOR and INDEXES have incompatible dimensions.") ;
       }
     }
 
@@ -186,15 +186,10 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
         vlmxError(vlmxErrInconsistentData,
                   "VALUES and INDEXES have incompatible dimensions.") ;
       }
-      if (k != (signed) d && (Bdims[k] != Hdims[k])) {
-        vlmxError(vlmxErrInconsistentData,
-                  "VALUES and ACCUMULATOR have incompatible dimensions.") ;
-      }
-      if (k < (signed) d) {
-        srd = srd * Bdims[k] ;
-      }
     }
 
+    for (k = 0 ; k < (signed) d ; ++k) srd = srd * Hdims[k] ;
+
     /* We sum efficiently by a single pass of B_pt in memory order.
      * This however makes the algorithm a bit more involved. How the
      * sum is performed is easeir understood by an example. Consider
-- 
2.43.0


From 424cb4ccf387aa8067b4c8a3de3881e575479715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 102/181] fix: vl_imwbackward computes derivatives at the last
 row and column like the image

---
 toolbox/imop/vl_imwbackwardmx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index d0245a7..cefc0e6 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -217,9 +217,9 @@ mexFunction(int nout, mxArray *out[],
 
 	  /* Weights. */
 	  double x0 = X_pt[j] ;
-	  double x1 = X_pt[j+1] ;
+	  double x1 = (j < N-1) ? X_pt[j+1] : x0 + 1;
 	  double y0 = Y_pt[i] ;
-	  double y1 = Y_pt[i+1] ;
+	  double y1 = (i < M-1) ? Y_pt[i+1] : y0 + 1;
 	  double wx = (x-x0)/(x1-x0) ;
 	  double wy = (y-y0)/(y1-y0) ;
 
-- 
2.43.0


From 302aed53cb9478d02a7b3987b073758940686e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 103/181] fix: vl_imwbackward accepts empty images

---
 toolbox/imop/vl_imwbackwardmx.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/toolbox/imop/vl_imwbackwardmx.c b/toolbox/imop/vl_imwbackwardmx.c
index cefc0e6..95a02f3 100644
--- a/toolbox/imop/vl_imwbackwardmx.c
+++ b/toolbox/imop/vl_imwbackwardmx.c
@@ -132,10 +132,16 @@ mexFunction(int nout, mxArray *out[],
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
-  Xmin = X_pt [0] ;
-  Xmax = X_pt [N - 1] ;
-  Ymin = Y_pt [0] ;
-  Ymax = Y_pt [M - 1] ;
+  if (M > 0 && N > 0) {
+    Xmin = X_pt [0] ;
+    Xmax = X_pt [N - 1] ;
+    Ymin = Y_pt [0] ;
+    Ymax = Y_pt [M - 1] ;
+  } else {
+    /* no pixel is inside an empty image */
+    Xmin = Ymin = 1 ;
+    Xmax = Ymax = 0 ;
+  }
 
   if (nout <= 1) {
 
-- 
2.43.0


From cf31354166f09c8d1f8ff91d975dbc3af07f255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 104/181] fix: vl_rodr converts several vectors without
 derivatives

---
 toolbox/geometry/vl_rodr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/geometry/vl_rodr.c b/toolbox/geometry/vl_rodr.c
index 7f3357a..5ab28dc 100644
--- a/toolbox/geometry/vl_rodr.c
+++ b/toolbox/geometry/vl_rodr.c
@@ -42,7 +42,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_OM],-1,-1)) {
+  if(!vlmxIsPlain(in[IN_OM])) {
     mexErrMsgTxt("OM must be a DOUBLE array") ;
   }
 
@@ -83,6 +83,6 @@ mexFunction(int nout, mxArray *out[],
     vl_rodrigues(R_pt, dR_pt, om_pt) ;
     om_pt += 3 ;
     R_pt  += 3*3 ;
-    dR_pt += 9*3 ;
+    if (dR_pt) dR_pt += 9*3 ;
   }
 }
-- 
2.43.0


From 4f04030512245ccd3f8e79997ba814788d84b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 105/181] fix: vl_irodr converts several matrices

---
 toolbox/geometry/vl_irodr.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/geometry/vl_irodr.c b/toolbox/geometry/vl_irodr.c
index 11b6d91..b23f4e0 100644
--- a/toolbox/geometry/vl_irodr.c
+++ b/toolbox/geometry/vl_irodr.c
@@ -44,7 +44,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Exactly one argument required.") ;
   }
 
-  if(!vlmxIsMatrix(in[IN_R],-1,-1)) {
+  if(!vlmxIsPlain(in[IN_R])) {
     mexErrMsgTxt("R must be a DOUBLE array") ;
   }
 
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   R_pt = mxGetPr(in[IN_R]) ;
 
   /* space for output (OM) */
-  out[OUT_OM] = mxCreateDoubleMatrix(3,1,mxREAL) ;
+  out[OUT_OM] = mxCreateDoubleMatrix(3,K,mxREAL) ;
   om_pt = mxGetPr(out[OUT_OM]) ;
 
   /* space for optional output (dR) */
@@ -78,7 +78,7 @@ mexFunction(int nout, mxArray *out[],
   for(k = 0 ; k < K ; ++k) {
     vl_irodrigues(om_pt, dom_pt, R_pt) ;
     om_pt  += 3 ;
-    dom_pt += 3*9 ;
+    if (dom_pt) dom_pt += 3*9 ;
     R_pt   += 3*3 ;
   }
 
-- 
2.43.0


From 86f6f330b6ed0bcd4042e5099e4ad3dcdc609805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 106/181] fix: vl_lbp_process does nothing when there is no
 cell

---
 vl/lbp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vl/lbp.c b/vl/lbp.c
index 6cea7cc..aaf2109 100644
--- a/vl/lbp.c
+++ b/vl/lbp.c
@@ -281,6 +281,9 @@ vl_lbp_process (VlLbp * self,
 #define at(u,v) (*(image + width * (v) + (u)))
 #define to(u,v,w) (*(features + cstride * (w) + cwidth * (v) + (u)))
 
+  /* images smaller than a cell have no features */
+  if (cstride == 0) return ;
+
   /* clear the output buffer */
   memset(features, 0, sizeof(float)*cdimension*cstride) ;
 
-- 
2.43.0


From 7ff59b2ec1dddcc0ec53cc15c3eebb4e6b15126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 107/181] fix: vl_twister restores the state of a generator
 that was never used

---
 toolbox/misc/vl_twister.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 265baab..2d21c46 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -147,7 +147,7 @@ mexFunction(int nout, mxArray *out[],
         } else if (mxIsNumeric(in[1])                                &&
                    mxGetClassID(in[1]) == mxUINT32_CLASS             &&
                    mxGetNumberOfElements(in[1]) == 624+1             &&
-                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 624  ) {
+                   ((vl_uint32 const*)mxGetData(in[1]))[624] <= 625  ) {
           /* TWISTER('state', STATE) */
           vl_uindex i ;
           vl_uint32 * data = mxGetData(in[1]) ;
-- 
2.43.0


From 53803d6d8b15c1d2890f4a70712130b76fe0c15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 108/181] fix: vl_twister rejects what is neither a seed, a
 state nor a key

---
 toolbox/misc/vl_twister.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index 2d21c46..c6796f1 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -155,6 +155,8 @@ mexFunction(int nout, mxArray *out[],
           rand->mti = data [624] ;
         } else if (mxIsNumeric(in[1])                    &&
                    mxGetClassID(in[1]) == mxDOUBLE_CLASS &&
+                   ! mxIsSparse(in[1])                   &&
+                   mxGetNumberOfElements(in[1]) >= 1     &&
                    mxGetNumberOfElements(in[1]) <= 624) {
           /* TWISTER('state', KEY) */
           vl_uint32 key [624] ;
@@ -165,6 +167,9 @@ mexFunction(int nout, mxArray *out[],
             key [k] = x [k] ;
           }
           vl_rand_seed_by_array (rand, key, n) ;
+        } else {
+          vlmxError(vlmxErrInvalidArgument,
+                    "The second argument is neither a seed, a state nor a key.") ;
         }
       }
     }
-- 
2.43.0


From 2d606baefa193408c3117ab4ef9d725266e4fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 109/181] fix: vl_ihashsum sets only the outputs it was asked
 for

---
 toolbox/misc/vl_ihashsum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index 5fb7f09..b3af248 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -235,6 +235,6 @@ mexFunction(int nout, mxArray *out[],
   mxSetM(id_,   ndims) ;
 
   out[OUT_H]    = h_ ;
-  out[OUT_ID]   = id_ ;
-  out[OUT_NEXT] = next_ ;
+  if (nout > 1) out[OUT_ID]   = id_ ;
+  if (nout > 2) out[OUT_NEXT] = next_ ;
 }
-- 
2.43.0


From 712d09061507d08fb308bd3add00f139eaf90561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 110/181] fix: vl_ihashsum and vl_ihashfind reject K=0

---
 toolbox/misc/vl_ihashfind.c | 3 +++
 toolbox/misc/vl_ihashsum.c  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/toolbox/misc/vl_ihashfind.c b/toolbox/misc/vl_ihashfind.c
index 6932e2c..ff6fb70 100644
--- a/toolbox/misc/vl_ihashfind.c
+++ b/toolbox/misc/vl_ihashfind.c
@@ -138,6 +138,9 @@ mexFunction(int nout, mxArray *out[],
 
   /* REMARK: last and next are 1 based */
 
+  if (K < 1) {
+    mexErrMsgTxt("K must be a positive integer") ;
+  }
   if (K > res) {
     mexErrMsgTxt("K cannot be larger then the size of H") ;
   }
diff --git a/toolbox/misc/vl_ihashsum.c b/toolbox/misc/vl_ihashsum.c
index b3af248..35e89dd 100644
--- a/toolbox/misc/vl_ihashsum.c
+++ b/toolbox/misc/vl_ihashsum.c
@@ -156,6 +156,9 @@ mexFunction(int nout, mxArray *out[],
 
   /* REMARK: last and next are 1 based */
 
+  if (K < 1) {
+    mexErrMsgTxt("K must be a positive integer") ;
+  }
   if (K > res) {
     mexErrMsgTxt("K cannot be larger then the size of H") ;
   }
-- 
2.43.0


From 038fa287ea150eb92884875d87c60a520bd47884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 111/181] fix: vl_erfill lists the pixel it starts from once

---
 toolbox/mser/vl_erfill.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 3ae1424..802adc6 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -121,6 +121,7 @@ mexFunction(int nout, mxArray *out[],
     members_pt [last++] = idx - 1 ;
   }
   value = I_pt[ members_pt[0] ]  ;
+  visited_pt [ members_pt[0] ] = 1 ;
 
   /* -----------------------------------------------------------------
    *                                                       Fill region
-- 
2.43.0


From 195797ad0821538434e036ae0b3e4a214e9c5a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 112/181] fix: vl_aibhist checks that the data are leaves and
 that the tree has no cycle

---
 toolbox/aib/vl_aibhist.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 2e604d7..32c3a25 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -53,7 +53,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     mexErrMsgTxt ("Too many output arguments.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_DATA], -1, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_DATA], -1, -1)) {
     mexErrMsgTxt ("DATA must be a matrix of DOUBLE");
   }
 
@@ -95,7 +95,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   {
     char buf [1024] ;
     vl_uint32 max_node = 0 ;
-    vl_uint32 min_node = 0 ;
+    vl_uint32 min_node = P + 1 ;
     vl_uint32 last_leaf = 0 ;
     /*vl_uint32 root = 0 ;*/
 
@@ -116,7 +116,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       }
 
       /* check node points to something above him */
-      if ((node != 0) & (node != 1) & (node < i)) {
+      if ((node != 0) & (node != 1) & (node < i + 1)) {
         snprintf(buf, sizeof(buf),
                  "Backward link PARENTS[%d] = %u < %d", i, node, i) ;
         mexErrMsgTxt (buf) ;
@@ -137,7 +137,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     /* process data */
     for (i = 0 ; i < N ; ++i) {
       /*int w = 1 ;*/
-      vl_uint32 x = data [i] ;
+      vl_uint32 x = (data [i] >= 0 && data [i] <= 4294967295.0) ? data [i] : 0 ;
 
       if (histmode) {
         /*w = x ;*/
-- 
2.43.0


From a0a764a2390c418dbb312531754b1b1010c973e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:02 +0000
Subject: [PATCH 113/181] fix: vl_aibhist accepts the option HIST and counts
 the occurrences

---
 toolbox/aib/vl_aibhist.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toolbox/aib/vl_aibhist.c b/toolbox/aib/vl_aibhist.c
index 32c3a25..79a2dee 100644
--- a/toolbox/aib/vl_aibhist.c
+++ b/toolbox/aib/vl_aibhist.c
@@ -79,7 +79,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
     }
     mxGetString(in[IN_OPT], buf, buflen) ;
     buf [buflen - 1] = 0 ;
-    if (!vlmxCompareStringsI("hist", buf)) {
+    if (vlmxCompareStringsI("hist", buf)) {
       mexErrMsgTxt("OPT must be equal to 'hist'") ;
     }
     histmode = 1 ;
@@ -136,12 +136,12 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
     /* process data */
     for (i = 0 ; i < N ; ++i) {
-      /*int w = 1 ;*/
+      vl_uint32 w = 1 ;
       vl_uint32 x = (data [i] >= 0 && data [i] <= 4294967295.0) ? data [i] : 0 ;
 
       if (histmode) {
-        /*w = x ;*/
-        x = i ;
+        w = x ;
+        x = i + 1 ;
       }
 
       if ((x < 1) | (x > last_leaf)) {
@@ -158,7 +158,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       while (VL_TRUE) {
         vl_uint32 x_ = parents [x -1] ;
         /*     mexPrintf("%u : x_=%u, x=%u\n", i, x_, x) ; */
-        ++ tree [x - 1] ;
+        tree [x - 1] += w ;
         if ((x_ == x) | (x_ == 0) | (x_ == 1)) break ;
         x = x_ ;
       }
-- 
2.43.0


From 8d1b0743cb7f356ea10adc7f09e167e606c34625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:30 +0000
Subject: [PATCH 114/181] fix: vl_alldist reports the metrics it lacks instead
 of aborting the host

---
 toolbox/misc/vl_alldist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_alldist.c b/toolbox/misc/vl_alldist.c
index 17bf510..5a0d44d 100644
--- a/toolbox/misc/vl_alldist.c
+++ b/toolbox/misc/vl_alldist.c
@@ -117,7 +117,7 @@ mexFunction(int nout, mxArray *out[],
       case opt_KHELL : comparisonType = VlKernelHellinger ; break ;
       case opt_KJS   : comparisonType = VlKernelJS ; break ;
       default:
-        abort() ;
+        vlmxError(vlmxErrInvalidOption, "This metric is not supported.") ;
     }
   }
 
-- 
2.43.0


From 7fdad42b5e97d4632952361874e58ca6dc07c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 115/181] fix: vl_imsmooth handles empty images and rejects
 sparse ones and infinite arguments

---
 toolbox/imop/vl_imsmooth.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/toolbox/imop/vl_imsmooth.c b/toolbox/imop/vl_imsmooth.c
index 081bca3..83899f3 100644
--- a/toolbox/imop/vl_imsmooth.c
+++ b/toolbox/imop/vl_imsmooth.c
@@ -228,11 +228,11 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be a scalar.") ;
         }
-        step = *mxGetPr(optarg) ;
-        if (step < 1) {
+        if (! (*mxGetPr(optarg) >= 1 && *mxGetPr(optarg) <= 2147483647.0)) {
           vlmxError(vlmxErrInvalidArgument,
                    "SUBSAMPLE must be not less than one.") ;
         }
+        step = *mxGetPr(optarg) ;
         break ;
 
       case opt_kernel :
@@ -273,8 +273,9 @@ mexFunction(int nout, mxArray *out[],
 
   classid = mxGetClassID(IN(I)) ;
 
-  if (classid != mxDOUBLE_CLASS &&
-      classid != mxSINGLE_CLASS) {
+  if ((classid != mxDOUBLE_CLASS &&
+       classid != mxSINGLE_CLASS) ||
+      ! vlmxIsReal(IN(I)) || mxIsSparse(IN(I))) {
     vlmxError(vlmxErrInvalidArgument,
              "I must be either DOUBLE or SINGLE.") ;
   }
@@ -290,13 +291,18 @@ mexFunction(int nout, mxArray *out[],
   K = (ndims > 2) ? dims[2] : 1 ;
 
   sigma = * mxGetPr(IN(S)) ;
+  if (! (sigma < 1e8)) {
+    vlmxError(vlmxErrInvalidArgument,
+             "S must be a finite number.") ;
+  }
+  if (sigma < 0) sigma = 0 ;
   if ((sigma < 0.01) && (step == 1)) {
     OUT(J) = mxDuplicateArray(IN(I)) ;
     return ;
   }
 
-  M_ = (M - 1) / step + 1 ;
-  N_ = (N - 1) / step + 1 ;
+  M_ = (M > 0) ? (M - 1) / step + 1 : 0 ;
+  N_ = (N > 0) ? (N - 1) / step + 1 : 0 ;
   dims_ [0] = M_ ;
   dims_ [1] = N_ ;
   if (ndims > 2) dims_ [2] = K ;
@@ -330,6 +336,9 @@ mexFunction(int nout, mxArray *out[],
               vl_get_simd_enabled() ? "yes" : "no") ;
   }
 
+  /* an empty image has nothing to smooth */
+  if (M == 0 || N == 0 || K == 0) return ;
+
   /* -----------------------------------------------------------------
    *                                                        Do the job
    * -------------------------------------------------------------- */
-- 
2.43.0


From 8a7e5bb50aa40a4c46c8a6ad1ed855dad49f65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:49 +0000
Subject: [PATCH 116/181] fix: vl_twister rejects dimensions that are not
 numbers

---
 toolbox/misc/vl_twister.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_twister.c b/toolbox/misc/vl_twister.c
index c6796f1..b10146e 100644
--- a/toolbox/misc/vl_twister.c
+++ b/toolbox/misc/vl_twister.c
@@ -69,7 +69,7 @@ mexFunction(int nout, mxArray *out[],
             vlmxError(vlmxErrInvalidArgument,
                      "The %d-th argument is not a plain scalar.", k + 1) ;
           }
-          if (mxGetScalar(in[k]) < 0) {
+          if (! (mxGetScalar(in[k]) >= 0 && mxGetScalar(in[k]) <= 2147483647.0)) {
             vlmxError(vlmxErrInvalidArgument,
                       "The %d-th argument is negative.", k + 1) ;
           }
@@ -94,14 +94,14 @@ mexFunction(int nout, mxArray *out[],
         }
 
         if (n == 1) {
-          if (*x < 0) {
+          if (! (*x >= 0 && *x <= 2147483647.0)) {
             vlmxError(vlmxErrInvalidArgument,
                       "The specified dimension is negative.") ;
           }
           dimensions[0] = dimensions[1] = *x ;
         } else {
           for (k = 0 ; k < n ; ++k) {
-            if (x[k] < 0) {
+            if (! (x[k] >= 0 && x[k] <= 2147483647.0)) {
               vlmxError(vlmxErrInvalidArgument,
                         "One of the specified dimensions is negative.") ;
             }
-- 
2.43.0


From be2aee2ffce049f279e324e8495ed8568e94a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 117/181] fix: numeric toolbox functions reject the sparse
 arrays they cannot read

---
 toolbox/imop/vl_imintegral.c    | 2 +-
 toolbox/misc/vl_binsum.def      | 5 +++++
 toolbox/misc/vl_cummax.c        | 2 +-
 toolbox/misc/vl_homkermap.c     | 4 ++--
 toolbox/misc/vl_sampleinthist.c | 4 ++--
 toolbox/sift/vl_ubcmatch.c      | 4 ++--
 6 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/toolbox/imop/vl_imintegral.c b/toolbox/imop/vl_imintegral.c
index 759cf0c..6794baa 100644
--- a/toolbox/imop/vl_imintegral.c
+++ b/toolbox/imop/vl_imintegral.c
@@ -48,7 +48,7 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if (! mxIsNumeric(IN(I))) {
+  if (! vlmxIsReal(IN(I)) || mxIsSparse(IN(I))) {
     vlmxError(vlmxErrInvalidArgument,
               "I is not numeric.") ;
   }
diff --git a/toolbox/misc/vl_binsum.def b/toolbox/misc/vl_binsum.def
index 250e5ab..11deafb 100644
--- a/toolbox/misc/vl_binsum.def
+++ b/toolbox/misc/vl_binsum.def
@@ -87,6 +87,11 @@ VL_XCAT4(_vl_binsum_,__VALUE_T__,_,__INDEX_T__)
   __INDEX_T__ const * B_pt ;
   __INDEX_T__ const * B_end ;
 
+  if (mxIsSparse(H_array) || mxIsSparse(X_array) || mxIsSparse(B_array)) {
+    vlmxError(vlmxErrInvalidArgument,
+              "ACCUMULATOR, VALUES and INDEXES must not be sparse.") ;
+  }
+
   KH = mxGetNumberOfElements(H_array) ; /* accumulator */
   KX = mxGetNumberOfElements(X_array) ; /* values */
   KB = mxGetNumberOfElements(B_array) ; /* accumulator indeces */
diff --git a/toolbox/misc/vl_cummax.c b/toolbox/misc/vl_cummax.c
index 81bbe46..82a2d70 100644
--- a/toolbox/misc/vl_cummax.c
+++ b/toolbox/misc/vl_cummax.c
@@ -78,7 +78,7 @@ mexFunction(int nout, mxArray *out[],
   }
 
   /* get information on the data */
-  if (!mxIsNumeric(IN(X))) {
+  if (!vlmxIsReal(IN(X)) || mxIsSparse(IN(X))) {
     vlmxError(vlmxErrInvalidArgument, "X is not a numeric array.") ;
   }
   classId = mxGetClassID(IN(X)) ;
diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index c7483fc..992c97a 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -80,8 +80,8 @@ mexFunction(int nout, mxArray *out[],
   }
 
   dataClassId = mxGetClassID(IN(X)) ;
-  if (dataClassId != mxDOUBLE_CLASS &&
-      dataClassId != mxSINGLE_CLASS) {
+  if ((dataClassId != mxDOUBLE_CLASS &&
+       dataClassId != mxSINGLE_CLASS) || mxIsSparse(IN(X))) {
     vlmxError(vlmxErrInvalidArgument, "X is neither DOUBLE nor SINGLE.") ;
   }
 
diff --git a/toolbox/misc/vl_sampleinthist.c b/toolbox/misc/vl_sampleinthist.c
index b036802..5ae6afc 100644
--- a/toolbox/misc/vl_sampleinthist.c
+++ b/toolbox/misc/vl_sampleinthist.c
@@ -75,8 +75,8 @@ mexFunction(int nout, mxArray *out[],
   }
 
   histClass = mxGetClassID(in[IN_INTHIST]) ;
-  if (histClass != mxDOUBLE_CLASS &&
-      histClass != mxUINT32_CLASS) {
+  if ((histClass != mxDOUBLE_CLASS &&
+       histClass != mxUINT32_CLASS) || mxIsSparse(in[IN_INTHIST])) {
     vlmxError(vlmxErrInvalidArgument,
              "INTHIST must be of either class DOUBLE or UINT32.") ;
   }
diff --git a/toolbox/sift/vl_ubcmatch.c b/toolbox/sift/vl_ubcmatch.c
index 05525eb..a7fd45c 100644
--- a/toolbox/sift/vl_ubcmatch.c
+++ b/toolbox/sift/vl_ubcmatch.c
@@ -127,8 +127,8 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Too many output arguments");
   }
 
-  if(!mxIsNumeric(in[L1]) ||
-     !mxIsNumeric(in[L2]) ||
+  if(!mxIsNumeric(in[L1]) || mxIsSparse(in[L1]) ||
+     !mxIsNumeric(in[L2]) || mxIsSparse(in[L2]) ||
      mxGetNumberOfDimensions(in[L1]) > 2 ||
      mxGetNumberOfDimensions(in[L2]) > 2) {
     mexErrMsgTxt("L1 and L2 must be two dimensional numeric arrays") ;
-- 
2.43.0


From 65d4f800e260b5180301e624a579cb8c5b610cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 118/181] fix: vl_tpsumx checks the class of its arguments

---
 toolbox/imop/vl_tpsumx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/imop/vl_tpsumx.c b/toolbox/imop/vl_tpsumx.c
index 3046437..505c7ce 100644
--- a/toolbox/imop/vl_tpsumx.c
+++ b/toolbox/imop/vl_tpsumx.c
@@ -44,11 +44,11 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
-  if(!vlmxIsMatrix(in[X], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[X], 2, -1)) {
     mexErrMsgTxt("X must be a 2xNP real matrix") ;
   }
 
-  if(!vlmxIsMatrix(in[Y], 2, -1)) {
+  if(!vlmxIsPlainMatrix(in[Y], 2, -1)) {
     mexErrMsgTxt("Y must be a 2xNCP real matrix") ;
   }
 
-- 
2.43.0


From 3b83d2581c1e50f2108dbefba9e8eafb6ce5d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 119/181] fix: vl_erfill does not convert seeds out of the
 range of indexes

---
 toolbox/mser/vl_erfill.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 802adc6..5706d10 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -108,7 +108,7 @@ mexFunction(int nout, mxArray *out[],
   /* load first pixel */
   memset(visited_pt, 0, sizeof(val_t) * nel) ;
   {
-    idx_t idx = (idx_t) *er_pt ;
+    idx_t idx = (fabs(*er_pt) <= nel) ? (idx_t) *er_pt : 0 ;
     if (idx < 0) {
       idx = -idx;
       invert = VL_TRUE ;
-- 
2.43.0


From 2d31b2d65b2634eb89274547701f9d59e2611a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 120/181] fix: vl_homkermap rejects arrays with more dimensions
 than it can hold

---
 toolbox/misc/vl_homkermap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index 992c97a..881981d 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -87,6 +87,9 @@ mexFunction(int nout, mxArray *out[],
 
   numDimensions = mxGetNumberOfDimensions(IN(X)) ;
   dimensions = mxGetDimensions(IN(X)) ;
+  if (numDimensions > 20) {
+    vlmxError(vlmxErrInvalidArgument, "X has more than 20 dimensions.") ;
+  }
 
   if (! vlmxIsPlainScalar(IN(N))) {
     vlmxError(vlmxErrInvalidArgument, "N is not a scalar.") ;
@@ -160,6 +163,9 @@ mexFunction(int nout, mxArray *out[],
     vl_size numElements = mxGetNumberOfElements(IN(X)) ;
     VlHomogeneousKernelMap * map = vl_homogeneouskernelmap_new (kernelType, gamma, n, period, windowType) ;
     mwSize extDimensions [20] ;
+    if (map == NULL) {
+      vlmxError(vlmxErrAlloc, NULL) ;
+    }
     for (j = 0 ; j < numDimensions ; ++j) extDimensions[j] = dimensions[j] ;
     extDimensions[0] *= 2*n+1 ;
     OUT(V) = mxCreateNumericArray(numDimensions, extDimensions, dataClassId, mxREAL) ;
-- 
2.43.0


From e06e1ff437114761565fcdac7a234c9c73c165f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:23 +0000
Subject: [PATCH 121/181] fix: vl_erfill has one output

---
 toolbox/mser/vl_erfill.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/mser/vl_erfill.c b/toolbox/mser/vl_erfill.c
index 5706d10..e24ef68 100644
--- a/toolbox/mser/vl_erfill.c
+++ b/toolbox/mser/vl_erfill.c
@@ -72,7 +72,7 @@ mexFunction(int nout, mxArray *out[],
    ** -------------------------------------------------------------- */
   if (nin != 2) {
     mexErrMsgTxt("Two arguments required.") ;
-  } else if (nout > 4) {
+  } else if (nout > 1) {
     mexErrMsgTxt("Too many output arguments.");
   }
 
-- 
2.43.0


From 63a2368c47dbc481c60903b6ce497d309f07b683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:23 +0000
Subject: [PATCH 122/181] fix: vl_lbp rejects cell sizes that are not numbers

---
 toolbox/misc/vl_lbp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_lbp.c b/toolbox/misc/vl_lbp.c
index 2bf8178..64307f9 100644
--- a/toolbox/misc/vl_lbp.c
+++ b/toolbox/misc/vl_lbp.c
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
               "CELLSIZE is not a plain scalar.") ;
   }
 
-  if (mxGetScalar(IN(CELLSIZE)) < 1.0) {
+  if (! (mxGetScalar(IN(CELLSIZE)) >= 1.0 && mxGetScalar(IN(CELLSIZE)) <= 2147483647.0)) {
     vlmxError(vlmxErrInvalidArgument,
               "CELLSIZE is less than 1.") ;
   }
-- 
2.43.0


From 8ce06f8ce2cbc6b592cbe6b7726309f0f23d755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:29 +0000
Subject: [PATCH 123/181] fix: vl_alldist2 rejects a full and a sparse argument
 in either order

---
 toolbox/misc/vl_alldist2.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_alldist2.c b/toolbox/misc/vl_alldist2.c
index 83bff52..9eb0f5c 100644
--- a/toolbox/misc/vl_alldist2.c
+++ b/toolbox/misc/vl_alldist2.c
@@ -316,8 +316,8 @@ mexFunction(int nout, mxArray *out[],
 
   sparse = mxIsSparse(in[IN_S1]) ;
 
-  if (sparse && nin >=2 && mxIsNumeric(in[IN_S2])) {
-    if (! mxIsSparse(in[IN_S2])) {
+  if (nin >=2 && mxIsNumeric(in[IN_S2])) {
+    if (! sparse != ! mxIsSparse(in[IN_S2])) {
       mexErrMsgTxt ("X and Y must be either both full or sparse.") ;
     }
   }
-- 
2.43.0


From be9e481bf6e6d4ac1afb4a157a36c8a6acf5cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:26 +0000
Subject: [PATCH 124/181] fix: vl_homkermap rejects parameters that are not
 numbers

---
 toolbox/misc/vl_homkermap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index 881981d..8ee2e42 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -121,7 +121,7 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not a scalar.") ;
         }
         period = *mxGetPr(optarg) ;
-        if (period <= 0) {
+        if (! (period > 0)) {
           vlmxError(vlmxErrInvalidArgument, "PERIOD is not positive.") ;
         }
         break ;
@@ -130,7 +130,7 @@ mexFunction(int nout, mxArray *out[],
           vlmxError(vlmxErrInvalidArgument, "GAMMA is not a scalar.") ;
         }
         gamma = *mxGetPr(optarg) ;
-        if (gamma <= 0) {
+        if (! (gamma > 0)) {
           vlmxError(vlmxErrInvalidArgument, "GAMMA is not positive.") ;
         }
         break ;
-- 
2.43.0


From baa7d7449a8a27b6ed9aa6b284a562b3e22a9276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:45 +0000
Subject: [PATCH 125/181] fix: vl_homkermap rejects orders whose output size
 overflows

---
 toolbox/misc/vl_homkermap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/misc/vl_homkermap.c b/toolbox/misc/vl_homkermap.c
index 8ee2e42..d6584f5 100644
--- a/toolbox/misc/vl_homkermap.c
+++ b/toolbox/misc/vl_homkermap.c
@@ -94,10 +94,10 @@ mexFunction(int nout, mxArray *out[],
   if (! vlmxIsPlainScalar(IN(N))) {
     vlmxError(vlmxErrInvalidArgument, "N is not a scalar.") ;
   }
-  n = *mxGetPr(IN(N)) ;
-  if (n < 0) {
-    vlmxError(vlmxErrInvalidArgument, "N is negative.") ;
+  if (! (*mxGetPr(IN(N)) >= 0 && *mxGetPr(IN(N)) <= 100000)) {
+    vlmxError(vlmxErrInvalidArgument, "N is negative or too large.") ;
   }
+  n = *mxGetPr(IN(N)) ;
 
   while ((opt = vlmxNextOption(in, nin, options, &next, &optarg)) >= 0) {
     switch (opt) {
-- 
2.43.0


From 45d4d4c4962a736fe2197c0155560516aedb1c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 126/181] fix: vl_homogeneouskernelmap_evaluate terminates on
 infinite values

---
 vl/homkermap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 1d460f0..5642790 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -543,7 +543,7 @@ VL_XCAT(vl_homogeneouskernelmap_evaluate_,SFX)
   mantissa *= 2*sign ;
   exponent -- ;
 
-  if (mantissa == 0 ||
+  if (mantissa == 0 || mantissa >= 2.0 /* infinite */ ||
       exponent < self->minExponent ||
       exponent >= self->maxExponent) {
     for (j = 0 ; j < 2*self->order+1 ; ++j) {
-- 
2.43.0


From 6af2fdf6b13474434452e6bc8fcebefbe7683ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 127/181] fix: vl_homogeneouskernelmap_new computes the size of
 its table without overflow

---
 vl/homkermap.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vl/homkermap.c b/vl/homkermap.c
index 5642790..d1635f2 100644
--- a/vl/homkermap.c
+++ b/vl/homkermap.c
@@ -329,7 +329,7 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
                              double period,
                              VlHomogeneousKernelMapWindowType windowType)
 {
-  int tableWidth, tableHeight ;
+  vl_size tableWidth, tableHeight ;
   VlHomogeneousKernelMap * self = vl_malloc(sizeof(VlHomogeneousKernelMap)) ;
   if (! self) return NULL ;
 
@@ -372,8 +372,8 @@ vl_homogeneouskernelmap_new (VlHomogeneousKernelType kernelType,
   self->minExponent = -20 ;
   self->maxExponent = 8 ;
 
-  tableHeight = (int) (2*self->order + 1) ;
-  tableWidth = (int) (self->numSubdivisions * (self->maxExponent - self->minExponent + 1)) ;
+  tableHeight = 2*self->order + 1 ;
+  tableWidth = self->numSubdivisions * (self->maxExponent - self->minExponent + 1) ;
   self->table = vl_malloc (sizeof(double) *
                            (tableHeight * tableWidth + 2*(1+self->order))) ;
   if (! self->table) {
-- 
2.43.0


From 3b5ec0a96509998f6c69531c5a6cb664d50bcb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:32 +0000
Subject: [PATCH 128/181] fix: the exponential table of SIFT is constant, so
 that threads creating filters do not race

---
 vl/sift.c | 108 +++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 90 insertions(+), 18 deletions(-)

diff --git a/vl/sift.c b/vl/sift.c
index ec22ab6..312f46d 100644
--- a/vl/sift.c
+++ b/vl/sift.c
@@ -670,7 +670,96 @@ Gaussian window size is set to have standard deviation
 
 #define EXPN_SZ  256          /**< ::fast_expn table size @internal */
 #define EXPN_MAX 25.0         /**< ::fast_expn table max  @internal */
-double expn_tab [EXPN_SZ+1] ; /**< ::fast_expn table      @internal */
+
+/** @internal @brief ::fast_expn table: exp(- k * EXPN_MAX / EXPN_SZ) */
+static double const expn_tab [EXPN_SZ+1] = {
+  1, 0.90696061788738358, 0.82257756239866464,
+  0.74604545425339064, 0.67663384616172895, 0.61368025119835856,
+  0.556583819812148, 0.50479960512294586, 0.45783336177161427,
+  0.41523682868184131, 0.37660345071088042, 0.34156449835526093,
+  0.30978554847668166, 0.28096329245899321, 0.25482264133228211,
+  0.23111410023442172, 0.20961138715109781, 0.19010927320679125,
+  0.17242162389375282, 0.15637962254382412, 0.14183015908734253,
+  0.1286343687209221, 0.11666630653668103, 0.10581174546314712,
+  0.09596708604499847, 0.087038367656223511, 0.078940371709397744,
+  0.071595808301815111, 0.064934578535560894, 0.058893105470869143,
+  0.05341372732716633, 0.048444147140314996, 0.04393693362340742,
+  0.039849068467162553, 0.036141535759214402, 0.032778949603576059,
+  0.02972921638615875, 0.026963228462898267, 0.024454586346948901,
+  0.022179346743409149, 0.02011579402674089, 0.018244232979788257,
+  0.016546800816230139, 0.015007296692347551, 0.013611027080910821,
+  0.01234466553138479, 0.011196125477957834, 0.010154444881433316,
+  0.0092096816039681402, 0.0083528185180810136, 0.0075756774442599355,
+  0.0068708410957615063, 0.0062315822856178829, 0.0056517997201800691,
+  0.0051259597663902571, 0.0046490436369911762, 0.0042164994895909262,
+  0.0038241989824012237, 0.0034683978720029172, 0.0031457002770710523,
+  0.0028530262669808752, 0.0025875824659499099, 0.00234683539215249,
+  0.0021284872773466024, 0.0019304541362277093, 0.0017508458761963386,
+  0.0015879482577006087, 0.0014402065329773381, 0.0013062106070345731,
+  0.0011846815792471309, 0.0010744595371137791, 0.00097449248567570525,
+  0.00088382630693504996, 0.00080159565344293724, 0.00072701568914244734,
+  0.00065937459863845598, 0.00059802679340037956, 0.00054238675005561891,
+  0.00049192342196437405, 0.0004461551707380848, 0.00040464516932626452,
+  0.00036699723279729379, 0.00033285203702079351, 0.00030188368916145319,
+  0.0002737966172519944, 0.00024832274915834434, 0.00022521895401214571,
+  0.00020426472169080589, 0.00018526005819728775, 0.00016802357685246475,
+  0.00015239076708175971, 0.00013821242427280515, 0.00012535322571817655,
+  0.00011369043905153408, 0.00010311275085006726, 9.3519204223044844e-05,
+  8.4818235246469155e-05, 7.6926799047255122e-05, 6.9769577195997096e-05,
+  6.3278258843423041e-05, 5.7390888739468748e-05, 5.2051275912254659e-05,
+  4.7208457363205169e-05, 4.2816211659642766e-05, 3.8832617782426598e-05,
+  3.5219655018134224e-05, 3.1942840077027507e-05, 2.8970897973338749e-05,
+  2.6275463526651657e-05, 2.3830810635409398e-05, 2.1613606738648142e-05,
+  1.9602690122459233e-05, 1.7778867945720539e-05, 1.6124733057388896e-05,
+  1.4624497856998555e-05, 1.3263843612676125e-05, 1.2029783798514364e-05,
+  1.0910540146952225e-05, 9.8954302331648945e-06, 8.9747655185327283e-06,
+  8.1397588800828274e-06, 7.3824407433342391e-06, 6.6955830180914168e-06,
+  6.0726301112044633e-06, 5.507636357859531e-06, 4.9952092742232995e-06,
+  4.5304580898263518e-06, 4.1089470684618039e-06, 3.7266531720786709e-06,
+  3.3799276636004495e-06, 3.0654612821937241e-06, 2.7802526586082712e-06,
+  2.5215796691343987e-06, 2.2869734547703984e-06, 2.0741948576306049e-06,
+  1.881213049695487e-06, 1.7061861499296281e-06, 1.5474436447710716e-06,
+  1.403470444207476e-06, 1.272892421265093e-06, 1.1544632968947564e-06,
+  1.0470527450799744e-06, 9.4963560463841462e-07, 8.6128209475071563e-07,
+  7.811489408304491e-07, 7.0847132603765933e-07, 6.4255559161860949e-07,
+  5.8277261640140736e-07, 5.2855181225926759e-07, 4.7937567823216166e-07,
+  4.3477486132962491e-07, 3.9432367687341812e-07, 3.5763604562474029e-07,
+  3.2436180891861498e-07, 2.9418338663589649e-07, 2.668127461154957e-07,
+  2.419886530771396e-07, 2.1947417831657823e-07, 1.9905443637632959e-07,
+  1.8053453460910078e-07, 1.6373771305908126e-07, 1.4850365740753147e-07,
+  1.3468696888087105e-07, 1.2215577651757361e-07, 1.1079047854889171e-07,
+  1.0048260088074174e-07, 9.1133761781728885e-08, 8.2654732895958446e-08,
+  7.4964587618635126e-08, 6.7989928706270212e-08, 6.1664187749557989e-08,
+  5.5926989822862745e-08, 5.0723577246325008e-08, 4.6004286960785361e-08,
+  4.172407652742239e-08, 3.7842094228091493e-08, 3.4321289163262447e-08,
+  3.1128057626204074e-08, 2.8231922378296127e-08, 2.5605241764368108e-08,
+  2.3222945891767137e-08, 2.1062297355162399e-08, 1.9102674223365895e-08,
+  1.7325373216925327e-08, 1.5713431197952121e-08, 1.4251463268425545e-08,
+  1.2925515931730584e-08, 1.172293391595559e-08, 1.0632239387868047e-08,
+  9.643022404747381e-09, 8.7458415585115687e-09, 7.9321338638528102e-09,
+  7.1941330303253834e-09, 6.5247953383479449e-09, 5.9177324116567718e-09,
+  5.3671502445684228e-09, 4.8677939021081986e-09, 4.4148973652044893e-09,
+  4.0041380422552452e-09, 3.6315955129101957e-09, 3.2937141103060809e-09,
+  2.9872689846275972e-09, 2.7093353240936622e-09, 2.4572604396041024e-09,
+  2.2286384466135608e-09, 2.0212873025882135e-09, 1.833227980883329e-09,
+  1.6626655822703847e-09, 1.5079722038360346e-09, 1.3676714017481293e-09,
+  1.2404240995963874e-09, 1.125015807812341e-09, 1.0203450321865548e-09,
+  9.2541276085023993e-10, 8.3931292938160318e-10, 7.6122377303280873e-10,
+  6.903999835404016e-10, 6.2616559566124212e-10, 5.6790753554074176e-10,
+  5.150697693369324e-10, 4.6714799625293631e-10, 4.2368483532641628e-10,
+  3.8426546003716083e-10, 3.4851363906808312e-10, 3.1608814543136926e-10,
+  2.866794996873118e-10, 2.6000701617205031e-10, 2.3581612404245766e-10,
+  2.1387593756935531e-10, 1.9397705248914596e-10, 1.7592954738152924e-10,
+  1.5956117099779949e-10, 1.4471569823899869e-10, 1.3125143909284639e-10,
+  1.1903988629825626e-10, 1.0796448883031038e-10, 9.7919539499433826e-11,
+  8.8809166047654571e-11, 8.0546416112644029e-11, 7.3052427326137936e-11,
+  6.6255674625887254e-11, 6.0091287597240141e-11, 5.450043132884139e-11,
+  4.9429744873134901e-11, 4.4830831952154158e-11, 4.0659799047731196e-11,
+  3.6876836467507136e-11, 3.344583838830227e-11, 3.0334058250416203e-11,
+  2.7511796213829361e-11, 2.4952115693286458e-11, 2.2630586266780565e-11,
+  2.0525050503673039e-11, 1.8615412486981054e-11, 1.6883446011420853e-11,
+  1.5312620626586539e-11, 1.3887943864964021e-11
+} ;
 
 #define NBO 8
 #define NBP 4
@@ -705,20 +794,6 @@ fast_expn (double x)
   return a + r * (b - a) ;
 }
 
-/** ------------------------------------------------------------------
- ** @internal
- ** @brief Initialize tables for ::fast_expn
- **/
-
-VL_INLINE void
-fast_expn_init ()
-{
-  int k  ;
-  for(k = 0 ; k < EXPN_SZ + 1 ; ++ k) {
-    expn_tab [k] = exp (- (double) k * (EXPN_MAX / EXPN_SZ)) ;
-  }
-}
-
 /** ------------------------------------------------------------------
  ** @internal
  ** @brief Copy image, upsample rows and take transpose
@@ -927,9 +1002,6 @@ vl_sift_new (int width, int height,
 
   f-> grad_o  = o_min - 1 ;
 
-  /* initialize fast_expn stuff */
-  fast_expn_init () ;
-
   return f ;
 }
 
-- 
2.43.0


From d3248ad63053cd02886b64936fdae59b8a563438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:06 +0000
Subject: [PATCH 129/181] fix: vl_kdforest_build releases the previous trees
 and refits the existing searchers

---
 vl/kdtree.c | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index 796304a..e3367bb 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -452,21 +452,14 @@ vl_kdforest_get_searcher (VlKDForest const * self, vl_uindex pos)
 }
 
 /** ------------------------------------------------------------------
- ** @brief Delete KDForest object
- ** @param self KDForest object to delete
- ** @sa ::vl_kdforest_new
+ ** @internal @brief Delete the trees of a KDForest object
+ ** @param self KDForest object.
  **/
 
-void
-vl_kdforest_delete (VlKDForest * self)
+static void
+vl_kdforest_delete_trees (VlKDForest * self)
 {
   vl_uindex ti ;
-  VlKDForestSearcher * searcher ;
-
-  while ((searcher = vl_kdforest_get_searcher(self, 0))) {
-    vl_kdforestsearcher_delete(searcher) ;
-  }
-
   if (self->trees) {
     for (ti = 0 ; ti < self->numTrees ; ++ ti) {
       if (self->trees[ti]) {
@@ -476,7 +469,26 @@ vl_kdforest_delete (VlKDForest * self)
       }
     }
     vl_free (self->trees) ;
+    self->trees = 0 ;
+  }
+}
+
+/** ------------------------------------------------------------------
+ ** @brief Delete KDForest object
+ ** @param self KDForest object to delete
+ ** @sa ::vl_kdforest_new
+ **/
+
+void
+vl_kdforest_delete (VlKDForest * self)
+{
+  VlKDForestSearcher * searcher ;
+
+  while ((searcher = vl_kdforest_get_searcher(self, 0))) {
+    vl_kdforestsearcher_delete(searcher) ;
   }
+
+  vl_kdforest_delete_trees (self) ;
   vl_free (self) ;
 }
 
@@ -532,11 +544,14 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
   vl_uindex di, ti ;
   vl_size maxNumNodes ;
   double * searchBounds;
+  VlKDForestSearcher * searcher ;
 
   assert(data) ;
   assert(numData >= 1) ;
 
-  /* need to check: if alredy built, clean first */
+  /* if already built, clean first */
+  vl_kdforest_delete_trees (self) ;
+
   self->data = data ;
   self->numData = numData ;
   self->trees = vl_malloc (sizeof(VlKDTree*) * self->numTrees) ;
@@ -574,6 +589,15 @@ vl_kdforest_build (VlKDForest * self, vl_size numData, void const * data)
 
   vl_free(searchBounds);
   self -> maxNumNodes = maxNumNodes;
+
+  /* fit the existing searchers, if any, to the new trees */
+  for (searcher = self->headSearcher ; searcher ; searcher = searcher->next) {
+    vl_free (searcher->searchHeapArray) ;
+    vl_free (searcher->searchIdBook) ;
+    searcher->searchHeapArray = vl_malloc (sizeof(VlKDForestSearchState) * self->maxNumNodes) ;
+    searcher->searchIdBook = vl_calloc (sizeof(vl_uindex), self->numData) ;
+    searcher->searchId = 0 ;
+  }
 }
 
 
-- 
2.43.0


From ec0d81507ac44b27a9dfed7d2fff5f56894e4ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:52 +0000
Subject: [PATCH 130/181] fix: kd-tree splitting at the mean falls back to the
 median when no point is below the mean

The first node starts at index zero, where splitIndex wrapped around and an
empty lower child was accepted, so that more nodes than allocated were used.
---
 vl/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/kdtree.c b/vl/kdtree.c
index e3367bb..597823b 100644
--- a/vl/kdtree.c
+++ b/vl/kdtree.c
@@ -296,7 +296,7 @@ vl_kdtree_build_recursively
        * reasons. In this case, also due to numerical accuracy, the
        * mean value can be smaller, equal, or larger than all
        * points. */
-      if (dataBegin <= splitIndex && splitIndex + 1 < dataEnd) break ;
+      if (dataBegin < splitIndex + 1 && splitIndex + 1 < dataEnd) break ;
 
     case VL_KDTREE_MEDIAN :
       medianIndex = (dataBegin + dataEnd - 1) / 2 ;
-- 
2.43.0


From 63efa20ce09286bcd2b36bb3c06968b7845af3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:06 +0000
Subject: [PATCH 131/181] fix: release the list of octaves when a scale space
 runs out of memory

---
 vl/scalespace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vl/scalespace.c b/vl/scalespace.c
index ea291dd..e726aa8 100644
--- a/vl/scalespace.c
+++ b/vl/scalespace.c
@@ -587,6 +587,7 @@ err_alloc_octaves:
       vl_free(self->octaves[o - self->geom.firstOctave]) ;
     }
   }
+  vl_free(self->octaves) ;
 err_alloc_octave_list:
   vl_free(self) ;
 err_alloc_self:
-- 
2.43.0


From ec09d8c3795bca10b89fe5d2004bfeb00a7cbd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:06 +0000
Subject: [PATCH 132/181] fix: creating an SVM returns NULL without leaks when
 memory runs out

---
 vl/svm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vl/svm.c b/vl/svm.c
index 287429d..698c7b0 100644
--- a/vl/svm.c
+++ b/vl/svm.c
@@ -962,7 +962,13 @@ vl_svm_new (VlSvmSolverType type,
             double lambda)
 {
   VlSvmDataset * dataset = vl_svmdataset_new(VL_TYPE_DOUBLE, (void*)data, dimension, numData) ;
-  VlSvm * self = vl_svm_new_with_dataset (type, dataset, labels, lambda) ;
+  VlSvm * self ;
+  if (dataset == NULL) return NULL ;
+  self = vl_svm_new_with_dataset (type, dataset, labels, lambda) ;
+  if (self == NULL) {
+    vl_svmdataset_delete(dataset) ;
+    return NULL ;
+  }
   self->ownDataset = dataset ;
   return self ;
 }
@@ -988,6 +994,7 @@ vl_svm_new_with_dataset (VlSvmSolverType solver,
                                              vl_svmdataset_get_num_data(dataset),
                                              labels,
                                              lambda) ;
+  if (self == NULL) return NULL ;
   vl_svm_set_data_functions (self,
                              vl_svmdataset_get_inner_product_function(dataset),
                              vl_svmdataset_get_accumulate_function(dataset)) ;
@@ -1024,6 +1031,8 @@ vl_svm_new_with_abstract_data (VlSvmSolverType solver,
   assert(numData >= 1) ;
   assert(labels) ;
 
+  if (self == NULL) return NULL ;
+
   self->solver = solver ;
 
   self->dimension = dimension ;
@@ -1085,6 +1094,7 @@ err_alloc:
     vl_free (self->alpha) ;
     self->alpha = 0 ;
   }
+  vl_free (self) ;
   return 0 ;
 }
 
-- 
2.43.0


From f66db0dcb2a7f34cb8fad7a87c11591b69c6f41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:06 +0000
Subject: [PATCH 133/181] fix: writing a PGM image reports running out of
 memory

---
 vl/pgm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vl/pgm.c b/vl/pgm.c
index 0f98ac1..c5600b3 100644
--- a/vl/pgm.c
+++ b/vl/pgm.c
@@ -352,6 +352,9 @@ vl_pgm_insert(FILE* f, VlPgmImage const *im, void const *data)
   if (bpp == 2) {
     vl_uindex i ;
     vl_uint8* temp = vl_malloc (2 * data_size) ;
+    if (temp == NULL) {
+      return vl_set_last_error(VL_ERR_ALLOC, "Out of memory writing PGM data") ;
+    }
     memcpy(temp, data, 2 * data_size) ;
     for(i = 0 ; i < 2 * data_size ; i += 2) {
       vl_uint8 tmp = temp [i] ;
@@ -535,6 +538,9 @@ int vl_pgm_write_f (char const *name, float const* data, int width, int height)
   float scale ;
 
   vl_uint8 * buffer = vl_malloc (sizeof(float) * width * height) ;
+  if (buffer == NULL) {
+    return vl_set_last_error(VL_ERR_ALLOC, "Out of memory writing PGM data") ;
+  }
 
   for (k = 0 ; k < width * height ; ++k) {
     min = VL_MIN(min, data [k]) ;
-- 
2.43.0


From 97909ace2351ec9150b897c3e6ee96229e284b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 134/181] fix: stable PR and ROC curves have a value, possibly
 NaN, for every sample

---
 toolbox/plotop/vl_pr.m  | 4 ++--
 toolbox/plotop/vl_roc.m | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/plotop/vl_pr.m b/toolbox/plotop/vl_pr.m
index dfe9971..634402b 100644
--- a/toolbox/plotop/vl_pr.m
+++ b/toolbox/plotop/vl_pr.m
@@ -217,8 +217,8 @@ if opts.stable
   recall(1) = [] ;
   precision_ = precision ;
   recall_ = recall ;
-  precision = NaN(size(precision)) ;
-  recall = NaN(size(recall)) ;
+  precision = NaN(1, numel(labels)) ;
+  recall = NaN(1, numel(labels)) ;
   precision(perm) = precision_ ;
   recall(perm) = recall_ ;
 end
diff --git a/toolbox/plotop/vl_roc.m b/toolbox/plotop/vl_roc.m
index 4f34877..335e573 100644
--- a/toolbox/plotop/vl_roc.m
+++ b/toolbox/plotop/vl_roc.m
@@ -252,8 +252,8 @@ if opts.stable
   tnr(1) = [] ;
   tpr_ = tpr ;
   tnr_ = tnr ;
-  tpr = NaN(size(tpr)) ;
-  tnr = NaN(size(tnr)) ;
+  tpr = NaN(1, numel(labels)) ;
+  tnr = NaN(1, numel(labels)) ;
   tpr(perm) = tpr_ ;
   tnr(perm) = tnr_ ;
 end
-- 
2.43.0


From 01f7dce2a8c08e5f4f80d26007f533f7349fd407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 135/181] fix: colour conversions use the white point of the
 specified illuminant

---
 toolbox/imop/vl_xyz2lab.m | 4 ++--
 toolbox/imop/vl_xyz2luv.m | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/toolbox/imop/vl_xyz2lab.m b/toolbox/imop/vl_xyz2lab.m
index 735bab3..0086730 100644
--- a/toolbox/imop/vl_xyz2lab.m
+++ b/toolbox/imop/vl_xyz2lab.m
@@ -22,8 +22,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.3484 ;
+    yw = 0.3516 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
diff --git a/toolbox/imop/vl_xyz2luv.m b/toolbox/imop/vl_xyz2luv.m
index 05c2ccf..614abdc 100644
--- a/toolbox/imop/vl_xyz2luv.m
+++ b/toolbox/imop/vl_xyz2luv.m
@@ -24,8 +24,8 @@ switch lower(il)
     xw = 0.4476 ;
     yw = 0.4074 ;
   case 'b'
-    xw = 0.3324 ;
-    yw = 0.3474 ;
+    xw = 0.3484 ;
+    yw = 0.3516 ;
   case 'c'
     xw = 0.3101 ;
     yw = 0.3162 ;
@@ -52,8 +52,6 @@ end
 J=zeros(size(I)) ;
 
 % Reference white
-xw = 1/3 ;
-yw = 1/3 ;
 Yw = 1.0 ;
 Xw = xw/yw ;
 Zw = (1-xw-yw)/yw * Yw ;
-- 
2.43.0


From 30520a0e4bf718305f257f4dbb58a829c3c41d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 136/181] fix: vl_xyz2rgb returns real values for colours on
 the border of the RGB gamut

---
 toolbox/imop/vl_xyz2rgb.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_xyz2rgb.m b/toolbox/imop/vl_xyz2rgb.m
index cd8dd6e..44d466e 100644
--- a/toolbox/imop/vl_xyz2rgb.m
+++ b/toolbox/imop/vl_xyz2rgb.m
@@ -44,5 +44,5 @@ end
 [M,N,K] = size(I) ;
 
 I = reshape(I, M*N, K) ;
-J = inv(A)*I' ;
+J = max(inv(A)*I', 0) ;
 J = reshape(J'.^(1/gamma), M, N, K) ;
-- 
2.43.0


From e48d81ed3bcb6877dd8f38bfd051748f216293c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 137/181] fix: vl_imup interpolates images of integer class
 without saturating

---
 toolbox/imop/vl_imup.m | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/imop/vl_imup.m b/toolbox/imop/vl_imup.m
index d30ffbe..e01cd4a 100644
--- a/toolbox/imop/vl_imup.m
+++ b/toolbox/imop/vl_imup.m
@@ -13,6 +13,9 @@ function J = vl_imup(I)
 
 [M,N,K] = size(I) ;
 
+% sums of integers would saturate
+if ~isfloat(I), I = double(I) ; end
+
 J = zeros(2*M,2*N,K) ;
 
 J(1:2:end,1:2:end,:) = I ;
-- 
2.43.0


From 18ed3bd368dbc29b56e5444e0d10395be3e685c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 138/181] fix: vl_histmarg orders the dimensions as listed

---
 toolbox/misc/vl_histmarg.m | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_histmarg.m b/toolbox/misc/vl_histmarg.m
index 3ee5d96..cb5bbd5 100644
--- a/toolbox/misc/vl_histmarg.m
+++ b/toolbox/misc/vl_histmarg.m
@@ -25,7 +25,10 @@ for d=setdiff(1:length(sz), dims(:))
   H = sum(H, d) ;
 end
 
+% List the dimensions in the order of DIMS
+H = permute(H, [dims(:)' setdiff(1:length(sz), dims(:))]) ;
+
 % Squeeze out marginalized dimensions
 sz = sz(dims(:)) ;
-sz = [sz ones(1,2-length(dims(:)))] ;
+sz = [sz(:)' ones(1,2-length(dims(:)))] ;
 H = reshape(H, sz) ;
-- 
2.43.0


From b96686c887e14b397f6e922c13acbaae7f6da346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 139/181] fix: vl_override applies its options to nested
 structures too

---
 toolbox/misc/vl_override.m | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_override.m b/toolbox/misc/vl_override.m
index 598c43c..d1cacec 100644
--- a/toolbox/misc/vl_override.m
+++ b/toolbox/misc/vl_override.m
@@ -107,7 +107,8 @@ for idx=1:numel(update)
     if ~isempty(configFieldName)
       config(idx).(configFieldName) = ...
           vl_override(config(idx).(configFieldName), ...
-                      update(idx).(updateFieldName)) ;
+                      update(idx).(updateFieldName), ...
+                      varargin{:}) ;
     else
       if warn
         warning(sprintf('copied field ''%s'' which is in UPDATE but not in CONFIG', ...
-- 
2.43.0


From 5477ca4e0446d0044d510465efe187734fdc2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 140/181] fix: vl_whistc skips samples with NaN weight

---
 toolbox/misc/vl_whistc.m | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/misc/vl_whistc.m b/toolbox/misc/vl_whistc.m
index c4b0ab3..11bb955 100644
--- a/toolbox/misc/vl_whistc.m
+++ b/toolbox/misc/vl_whistc.m
@@ -27,6 +27,11 @@ end
 
 % NaNs must be also removed
 binIndexes(isnan(x)) = 0 ;
+if isscalar(w)
+  if isnan(w), binIndexes(:) = 0 ; end
+else
+  binIndexes(isnan(w)) = 0 ;
+end
 
 % find operating dimension
 dimensions = size(x) ;
-- 
2.43.0


From 9b3366d8066394b450adf8b8cf61c33c4f54a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 141/181] fix: vl_alphanum sorts lists that contain the empty
 string

---
 toolbox/misc/vl_alphanum.m | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index 7fa2af3..6454de1 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -22,6 +22,10 @@ function [strings, perm] = vl_alphanum(strings)
 
 chunks = regexp(strings, '(\d+|\D+)', 'tokens') ;
 for i = 1:length(strings)
+  if isempty(strings{i})
+    chunks{i} = '' ;
+    continue ;
+  end
   chunks{i} = [chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
-- 
2.43.0


From a5893369151098dd84e71c18a28fbc39d6e8a233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:54 +0000
Subject: [PATCH 142/181] fix: vl_argparse passes back unmatched parameters of
 substructures

---
 toolbox/misc/vl_argparse.m | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index bdc6be3..2946aa4 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -98,7 +98,7 @@ while ai <= numel(args)
     else
       [opts, rest] = vl_argparse(opts, reshape(vertcat(params,values), 1, []), varargin{:}) ;
       args{ai} = cell2struct(rest(2:2:end), rest(1:2:end), 2) ;
-      keep(ai) = true ;
+      keep(ai) = ~isempty(rest) ;
     end
     ai = ai + 1 ;
     continue ;
@@ -147,7 +147,13 @@ while ai <= numel(args)
           field) ;
       end
       if nargout > 1
-        [opts.(field), args{ai+1}] = vl_argparse(opts.(field), value, varargin{:}) ;
+        [opts.(field), rest] = vl_argparse(opts.(field), value, varargin{:}) ;
+        if ~isempty(rest)
+          % pass back the subfields that were not matched
+          args{ai} = param ;
+          args{ai+1} = rest{1} ;
+          keep([ai,ai+1]) = true ;
+        end
       else
         opts.(field) = vl_argparse(opts.(field), value, varargin{:}) ;
       end
-- 
2.43.0


From 34da8e2e67c0e69d020b8947ee8d579edae69de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 143/181] fix: vl_hikmeanspush accepts the leaves that Octave
 returns with an empty SUB field

---
 toolbox/kmeans/vl_hikmeanspush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index efcbc6c..9478f8b 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -85,7 +85,7 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
   vl_ikm_init (node->filter, mxGetData(mcenters), M, node_K) ;
 
   /* has any childer? */
-  if (msub) {
+  if (msub && !mxIsEmpty(msub)) {
 
     /* sanity checks */
     if (mxGetClassID (msub) != mxSTRUCT_CLASS) {
-- 
2.43.0


From 30ed5d6981150b1a3c38b4e2b1cad1eed62281bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 144/181] fix: vl_aibcut maps the null nodes added to a cut to
 their elements

---
 toolbox/aib/vl_aibcut.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aibcut.m b/toolbox/aib/vl_aibcut.m
index 8becf61..c3635f0 100644
--- a/toolbox/aib/vl_aibcut.m
+++ b/toolbox/aib/vl_aibcut.m
@@ -100,4 +100,4 @@ map             = 1:numel(parents) ;
 map(cut)        = 1:n ;
 map(short >  0) = map(short(short > 0)) ;
 map(short == 0) = 0 ;
-map(mu+1:end)   = 0 ;
+map(setdiff(mu+1:numel(map), cut)) = 0 ;
-- 
2.43.0


From defa3d1fdb189e60a24a5902e06436b5b2bb0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:52 +0000
Subject: [PATCH 145/181] fix: vl_argparse accepts a structure as the value of
 a new or non-structure option

---
 toolbox/misc/vl_argparse.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_argparse.m b/toolbox/misc/vl_argparse.m
index 2946aa4..a60e0f1 100644
--- a/toolbox/misc/vl_argparse.m
+++ b/toolbox/misc/vl_argparse.m
@@ -160,7 +160,7 @@ while ai <= numel(args)
     else
       % The parameter does not have a struct value in OPTS: copy as is, or
       % merge it, if it contains a struct.
-      if ~isstruct(value)
+      if ~isstruct(value) || ~isfield(opts, field) || ~isstruct(opts.(field))
         opts.(field) = value ;
       else
         opts.(field) = vl_argparse(opts.(field), value, 'merge') ;
-- 
2.43.0


From bb984346012441c907408aabc6ff5f921a677fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:34 +0000
Subject: [PATCH 146/181] fix: vl_alphanum orders numbers that do not fit 32
 bits

---
 toolbox/misc/vl_alphanum.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_alphanum.m b/toolbox/misc/vl_alphanum.m
index 6454de1..716c6b1 100644
--- a/toolbox/misc/vl_alphanum.m
+++ b/toolbox/misc/vl_alphanum.m
@@ -29,7 +29,7 @@ for i = 1:length(strings)
   chunks{i} = [chunks{i}{:}] ;
   for j = 1:length(chunks{i})
     if isstrprop(chunks{i}{j},'digit')
-      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%d')) ;
+      chunks{i}{j} = sprintf('%020.0f',sscanf(chunks{i}{j},'%f')) ;
     end
   end
   chunks{i} = [chunks{i}{:}] ;
-- 
2.43.0


From c77f6444752f1c22c8bada125175114de9f4bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:25 +0000
Subject: [PATCH 147/181] fix: MEX functions store only the outputs asked for

---
 toolbox/gmm/vl_gmm.c               | 25 +++++++++++++++----------
 toolbox/misc/vl_kdtreequery.c      |  6 ++++--
 toolbox/misc/vl_svmtrain.c         |  4 +++-
 toolbox/quickshift/vl_quickshift.c | 20 +++++++++++++-------
 toolbox/sift/vl_dsift.c            |  8 +++++---
 5 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index 7b9445b..f0492ce 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -336,21 +336,25 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* copy centers */
   OUT(MEANS) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
-  OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
-  OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
-
   memcpy (mxGetData(OUT(MEANS)),
           vl_gmm_get_means (gmm),
           vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
 
-  memcpy (mxGetData(OUT(COVARIANCES)),
-          vl_gmm_get_covariances (gmm),
-          vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  /* optionally return covariances */
+  if (nout > 1) {
+    OUT(COVARIANCES) = mxCreateNumericMatrix (dimension, numClusters, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(COVARIANCES)),
+            vl_gmm_get_covariances (gmm),
+            vl_get_type_size (dataType) * dimension * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
-  memcpy (mxGetData(OUT(PRIORS)),
-          vl_gmm_get_priors (gmm),
-          vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  /* optionally return priors */
+  if (nout > 2) {
+    OUT(PRIORS) = mxCreateNumericMatrix (numClusters, 1, classID, mxREAL) ;
+    memcpy (mxGetData(OUT(PRIORS)),
+            vl_gmm_get_priors (gmm),
+            vl_get_type_size (dataType) * vl_gmm_get_num_clusters(gmm)) ;
+  }
 
   /* optionally return loglikelihood */
   if (nout > 3) {
@@ -359,6 +363,7 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   /* optionally return posterior probabilities */
   if (nout > 4) {
+    OUT(POSTERIORS) = mxCreateNumericMatrix (numClusters, numData, classID, mxREAL) ;
     memcpy (mxGetData(OUT(POSTERIORS)),
             vl_gmm_get_posteriors (gmm),
             vl_get_type_size (dataType) * numData * vl_gmm_get_num_clusters(gmm)) ;
diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 08c5e2b..7837cf9 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -54,6 +54,7 @@ mexFunction(int nout, mxArray *out[],
   mxArray const * forest_array = in[IN_FOREST] ;
   mxArray const * data_array = in[IN_DATA] ;
   mxArray const * query_array = in[IN_QUERY] ;
+  mxArray * distance_array ;
   void * query ;
   vl_uint32 * index ;
   void * distance ;
@@ -123,10 +124,11 @@ mexFunction(int nout, mxArray *out[],
   numQueries = mxGetN (query_array) ;
 
   out[OUT_INDEX] = mxCreateNumericMatrix (numNeighbors, numQueries, mxUINT32_CLASS, mxREAL) ;
-  out[OUT_DISTANCE] = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
+  distance_array = mxCreateNumericMatrix (numNeighbors, numQueries, dataClass, mxREAL) ;
+  if (nout > 1) out[OUT_DISTANCE] = distance_array ;
 
   index = mxGetData (out[OUT_INDEX]) ;
-  distance = mxGetData (out[OUT_DISTANCE]) ;
+  distance = mxGetData (distance_array) ;
 
   if (verbose) {
     VL_PRINTF ("vl_kdforestquery: number of queries: %d\n", numQueries) ;
diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index e62d9c9..39bb4aa 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -622,7 +622,9 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
              vl_svm_get_model(svm),
              vl_svm_get_dimension(svm) * sizeof(double)) ;
     }
-    out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    if (nout >= 2) {
+      out[OUT_BIAS] = vlmxCreatePlainScalar(vl_svm_get_bias(svm)) ;
+    }
     if (nout >= 3) {
       out[OUT_INFO] = makeInfoStruct(svm) ;
     }
diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 9858bb0..18d80de 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -56,7 +56,7 @@ mexFunction(int nout, mxArray *out[],
   mxArray const  *optarg ;
 
   double const *I ;
-  double *parents, *dists, *density ;
+  double *parents ;
   int *parentsi;
   double sigma ;
   double tau ;
@@ -122,11 +122,13 @@ mexFunction(int nout, mxArray *out[],
   out[OUT_PARENTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
   parents          = mxGetPr (out[OUT_PARENTS]) ;
 
-  out[OUT_DISTS]   = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  dists            = mxGetPr (out[OUT_DISTS]) ;
+  if (nout > 1) {
+    out[OUT_DISTS] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+  }
 
-  out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
-  density          = mxGetPr (out[OUT_DENSITY]) ;
+  if (nout > 2) {
+    out[OUT_DENSITY] = mxCreateDoubleMatrix(N1, N2, mxREAL) ;
+  }
 
   if (verb) {
     mexPrintf("quickshift: [N1,N2,K]: [%d,%d,%d]\n", N1,N2,K) ;
@@ -147,8 +149,12 @@ mexFunction(int nout, mxArray *out[],
   parentsi = vl_quickshift_get_parents(q);
   /* Copy results */
   for(i = 0; i < N1*N2; i++) parents[i] = parentsi[i] + 1;
-  memcpy(dists, vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
-  memcpy(density, vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  if (nout > 1) {
+    memcpy(mxGetPr (out[OUT_DISTS]), vl_quickshift_get_dists(q), sizeof(double)*N1*N2);
+  }
+  if (nout > 2) {
+    memcpy(mxGetPr (out[OUT_DENSITY]), vl_quickshift_get_density(q), sizeof(double)*N1*N2);
+  }
 
   /* Delete quick shift object */
   vl_quickshift_delete(q);
diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index cf3aafc..972ac8a 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -203,6 +203,7 @@ mexFunction(int nout, mxArray *out[],
     int descrSize ;
     VlDsiftKeypoint const *frames ;
     float const *descrs ;
+    mxArray *descriptors_array ;
     int k, i ;
 
     VlDsiftFilter *dsift ;
@@ -274,12 +275,13 @@ mexFunction(int nout, mxArray *out[],
       dims [1] = numFrames ;
 
       if (floatDescriptors) {
-        out[OUT_DESCRIPTORS] = mxCreateNumericArray
+        descriptors_array = mxCreateNumericArray
         (2, dims, mxSINGLE_CLASS, mxREAL) ;
       } else {
-        out[OUT_DESCRIPTORS] = mxCreateNumericArray
+        descriptors_array = mxCreateNumericArray
         (2, dims, mxUINT8_CLASS, mxREAL) ;
       }
+      if (nout > 1) out[OUT_DESCRIPTORS] = descriptors_array ;
 
       dims [0] = norm ? 3 : 2 ;
 
@@ -293,7 +295,7 @@ mexFunction(int nout, mxArray *out[],
     {
       float *tmpDescr = mxMalloc(sizeof(float) * descrSize) ;
       double *outFrameIter = mxGetPr(out[OUT_FRAMES]) ;
-      void *outDescrIter = mxGetData(out[OUT_DESCRIPTORS]) ;
+      void *outDescrIter = mxGetData(descriptors_array) ;
       for (k = 0 ; k < numFrames ; ++k) {
         *outFrameIter++ = frames[k].y + 1 ;
         *outFrameIter++ = frames[k].x + 1 ;
-- 
2.43.0


From 1bf46030ba6dec50eb024c7b1038dc8e42f689ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:25 +0000
Subject: [PATCH 148/181] fix: vl_hikmeans honours MaxIters

---
 toolbox/kmeans/vl_hikmeans.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index b18ffce..34d4827 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -193,6 +193,7 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
 
   depth = VL_MAX(1, ceil (log (nleaves) / log(K))) ;
   tree  = vl_hikm_new  (method_type) ;
+  vl_hikm_set_max_niters (tree, max_niters) ;
 
   if (verb) {
     mexPrintf("hikmeans: # dims: %d\n", M) ;
-- 
2.43.0


From bd3cae489986c54c3d666ac3168a42084284b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:25 +0000
Subject: [PATCH 149/181] fix: vl_aib merging null values loses no information

---
 toolbox/aib/vl_aib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 33f506b..beb9d66 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -179,7 +179,7 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
       cost [n] = cost [n - (e - ep)] ;
     }
     for (n = c ; n >= a ; --n) {
-      cost [n] = cost [d] ;
+      cost [n] = cost [a - 1] ;
     }
   }
 }
-- 
2.43.0


From 311aca5fb962f0259c79765e0f3c1825fb19c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:28 +0000
Subject: [PATCH 150/181] fix: the affine adaptation of mirrored frames is
 bounded too

---
 vl/covdet.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vl/covdet.c b/vl/covdet.c
index bce652a..a692af1 100644
--- a/vl/covdet.c
+++ b/vl/covdet.c
@@ -2497,6 +2497,14 @@ vl_covdet_extract_affine_shape_for_frame (VlCovDet * self,
 
     /* A = U D V' */
     vl_svd2(D, U, V, A) ;
+
+    /* the singular values are signed for mirrored frames */
+    if (D[0] < 0) {
+      D[0] = - D[0] ; U[0] = - U[0] ; U[1] = - U[1] ;
+    }
+    if (D[3] < 0) {
+      D[3] = - D[3] ; U[2] = - U[2] ; U[3] = - U[3] ;
+    }
     anisotropy = VL_MAX(D[0]/D[3], D[3]/D[0]) ;
 
     /* VL_PRINTF("anisot: %g\n", anisotropy); */
-- 
2.43.0


From 4da2e9d217c43b2ea143224c7e5a8ca6a3678810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:28 +0000
Subject: [PATCH 151/181] fix: vl_covdet reports no uninitialised scores for
 user frames

---
 toolbox/sift/vl_covdet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 830b67b..e6a378e 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -507,6 +507,7 @@ mexFunction(int nout, mxArray *out[],
         double const * uframe = userFrames + userFrameDimension * k ;
         double a11, a21, a12, a22 ;
         VlCovDetFeature feature ;
+        memset(&feature, 0, sizeof(feature)) ;
         feature.peakScore = VL_INFINITY_F ;
         feature.edgeScore = 1.0 ;
         feature.frame.x = (float)uframe[1] - 1 ;
-- 
2.43.0


From 2927aa276657aeeeb092d3b63e5b7f1cea7a3386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:16 +0000
Subject: [PATCH 152/181] fix: vl_covdet with an empty list of frames detects
 none

---
 toolbox/sift/vl_covdet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index e6a378e..deb54f8 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -496,7 +496,7 @@ mexFunction(int nout, mxArray *out[],
     vl_covdet_put_image(covdet, image, numRows, numCols) ;
 
     /* fill with frames: either run the detector of poure them in */
-    if (numUserFrames > 0) {
+    if (userFrameDimension > 0) {
       vl_index k ;
 
       if (verbose) {
-- 
2.43.0


From 83ad6621d2015d469fde365a40f52297aada8e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:25 +0000
Subject: [PATCH 153/181] fix: vl_quickshift checks the class of its scalar
 arguments

---
 toolbox/quickshift/vl_quickshift.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/toolbox/quickshift/vl_quickshift.c b/toolbox/quickshift/vl_quickshift.c
index 18d80de..401f347 100644
--- a/toolbox/quickshift/vl_quickshift.c
+++ b/toolbox/quickshift/vl_quickshift.c
@@ -93,10 +93,18 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("I must have at most 3 dimensions.") ;
   }
 
-  if (mxGetClassID(in[IN_I]) != mxDOUBLE_CLASS) {
+  if (!vlmxIsPlain(in[IN_I])) {
     mexErrMsgTxt("I must be DOUBLE.")  ;
   }
 
+  if (!vlmxIsPlainScalar(in[IN_KERNEL_SIZE])) {
+    mexErrMsgTxt("KERNELSIZE must be a scalar.") ;
+  }
+
+  if (nin > 2 && !vlmxIsPlainScalar(in[IN_MAX_DIST])) {
+    mexErrMsgTxt("MAXDIST must be a scalar.") ;
+  }
+
   N1 = dims [0] ;
   N2 = dims [1] ;
   K = (ndims == 3) ? dims [2] : 1 ;
-- 
2.43.0


From 5ab58ea49b7efcd683bc36e28a98af8b8f94c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:25 +0000
Subject: [PATCH 154/181] fix: vl_vlad requires an assignment for each datum

---
 toolbox/vlad/vl_vlad.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index 0cb3bac..e74e772 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -110,7 +110,7 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
     vlmxError (vlmxErrInvalidArgument, "MEANS is not a matrix or does not have the right size.") ;
   }
 
-  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, -1)) {
+  if (!vlmxIsMatrix(IN(ASSIGNMENTS), numClusters, numData)) {
     vlmxError (vlmxErrInvalidArgument, "ASSIGNMENTS is not a matrix or does not have the right size.") ;
   }
 
-- 
2.43.0


From cffdf11144111770527b304fc330063a34572d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:47 +0000
Subject: [PATCH 155/181] fix: vl_svmtrain checks that the names in HOMKERMAP
 are strings

---
 toolbox/misc/vl_svmtrain.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 39bb4aa..8984e7a 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -174,7 +174,10 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
       field = mxGetField(hom_array, 0, "kernel") ;
       if (field != NULL) {
         char buffer [1024] ;
-        mxGetString(field, buffer, sizeof(buffer) / sizeof(char)) ;
+        if (! vlmxIsString(field, -1) ||
+            mxGetString(field, buffer, sizeof(buffer) / sizeof(char))) {
+          vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.KERNEL is not a string.") ;
+        }
         if (vl_string_casei_cmp("kl1", buffer) == 0) {
           kernelType = VlHomogeneousKernelIntersection ;
         } else if (vl_string_casei_cmp("kchi2", buffer) == 0) {
@@ -191,7 +194,10 @@ VlSvmDataset * parseDataset(const mxArray * dataset_array)
       field = mxGetField(hom_array, 0, "window") ;
       if (field != NULL) {
         char buffer [1024] ;
-        mxGetString(field, buffer, sizeof(buffer) / sizeof(char)) ;
+        if (! vlmxIsString(field, -1) ||
+            mxGetString(field, buffer, sizeof(buffer) / sizeof(char))) {
+          vlmxError(vlmxErrInvalidArgument, "DATASET.HOMKERMAP.WINDOW is not a string.") ;
+        }
         if (vl_string_casei_cmp("uniform", buffer) == 0) {
           windowType = VlHomogeneousKernelMapWindowUniform ;
         } else if (vl_string_casei_cmp("rectangular", buffer) == 0) {
-- 
2.43.0


From d4a618ea552ce3670ba157396ca0ccb5772c564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:47 +0000
Subject: [PATCH 156/181] fix: vl_sift and vl_siftdescriptor check the class of
 the frames

---
 toolbox/sift/vl_sift.c           | 2 +-
 toolbox/sift/vl_siftdescriptor.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 8ab263d..55f0b4b 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -238,7 +238,7 @@ mexFunction(int nout, mxArray *out[],
       break ;
 
     case opt_frames :
-      if (!vlmxIsMatrix(optarg, 4, -1)) {
+      if (!vlmxIsPlainMatrix(optarg, 4, -1)) {
         mexErrMsgTxt("'Frames' must be a 4 x N matrix.") ;
       }
       ikeys_array = mxDuplicateArray (optarg) ;
diff --git a/toolbox/sift/vl_siftdescriptor.c b/toolbox/sift/vl_siftdescriptor.c
index 649fde4..6cf63f0 100644
--- a/toolbox/sift/vl_siftdescriptor.c
+++ b/toolbox/sift/vl_siftdescriptor.c
@@ -114,7 +114,7 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("GRAD must be a 2xMxN matrix of class SINGLE.") ;
   }
 
-  if (!vlmxIsMatrix(in[IN_FRAMES], 4, -1)) {
+  if (!vlmxIsPlainMatrix(in[IN_FRAMES], 4, -1)) {
     mexErrMsgTxt("FRAMES must be a 4xN matrix.") ;
   }
   nikeys = mxGetN (in[IN_FRAMES]) ;
-- 
2.43.0


From e5369cbdabe2b0d9d8fc1d47d714cd818f45eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:04 +0000
Subject: [PATCH 157/181] fix: vl_hikmeans refuses fewer than two clusters per
 node

---
 toolbox/kmeans/vl_hikmeans.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toolbox/kmeans/vl_hikmeans.c b/toolbox/kmeans/vl_hikmeans.c
index 34d4827..1247dc8 100644
--- a/toolbox/kmeans/vl_hikmeans.c
+++ b/toolbox/kmeans/vl_hikmeans.c
@@ -144,7 +144,11 @@ void mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
   N = mxGetN (in[IN_DATA]);   /* n of elements */
 
   if (! vlmxIsPlainScalar (in[IN_K])    ||
-      (K = (int) *mxGetPr (in[IN_K])) > N) {
+      *mxGetPr (in[IN_K]) < 2) {
+    mexErrMsgTxt ("K must be a scalar not smaller than 2.") ;
+  }
+
+  if ((K = (int) *mxGetPr (in[IN_K])) > N) {
     mexErrMsgTxt ("Cannot have more clusters than data.") ;
   }
 
-- 
2.43.0


From ce20031df42ccd5e66c9aeba88f0c3eab64b3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:04 +0000
Subject: [PATCH 158/181] fix: vl_hikmeanspush checks the size of the data and
 the depth of the tree

---
 toolbox/kmeans/vl_hikmeanspush.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/toolbox/kmeans/vl_hikmeanspush.c b/toolbox/kmeans/vl_hikmeanspush.c
index 9478f8b..83e7b24 100644
--- a/toolbox/kmeans/vl_hikmeanspush.c
+++ b/toolbox/kmeans/vl_hikmeanspush.c
@@ -45,7 +45,7 @@ vlmxOption  options [] = {
  **/
 
 static VlHIKMNode *
-xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
+xcreate (VlHIKMTree *tree, mxArray const *mnode, int i, vl_size depth)
 {
   mxArray const *mcenters, *msub ;
   VlHIKMNode *node ;
@@ -94,10 +94,13 @@ xcreate (VlHIKMTree *tree, mxArray const *mnode, int i)
     if (mxGetNumberOfElements (msub) != node_K) {
       mexErrMsgTxt("A NODE.SUB does not correspond to NODE.CENTERS.") ;
     }
+    if (depth <= 1) {
+      mexErrMsgTxt("TREE is deeper than TREE.DEPTH.") ;
+    }
 
     node->children = mxMalloc (sizeof(VlHIKMNode *) * node_K) ;
     for(k = 0 ; k < node_K ; ++ k) {
-      node->children[k] = xcreate (tree, msub, k) ;
+      node->children[k] = xcreate (tree, msub, k, depth - 1) ;
     }
   }
   return node ;
@@ -143,7 +146,7 @@ matlab_to_hikm (mxArray const *mtree, int method_type)
   tree->K = (vl_size)K ;
   tree->M = 0 ; /* to be initialized later */
   tree->method = method_type ;
-  tree->root = xcreate (tree, mtree, 0) ;
+  tree->root = xcreate (tree, mtree, 0, depth) ;
   return tree ;
 }
 
@@ -223,6 +226,10 @@ void mexFunction (int nout, mxArray * out[],
     tree = matlab_to_hikm (in[IN_TREE], method_type) ;
     depth = vl_hikm_get_depth (tree) ;
 
+    if (mxGetM (in[IN_DATA]) != vl_hikm_get_ndims (tree)) {
+      mexErrMsgTxt("DATA does not have the same number of rows as the centers of TREE.") ;
+    }
+
     if (verb) {
       mexPrintf("vl_hikmeanspush: ndims: %d K: %d depth: %d\n",
                 vl_hikm_get_ndims (tree),
-- 
2.43.0


From b1b0140915f63ca1aa063ca6f580611ee77312ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:27 +0000
Subject: [PATCH 159/181] fix: vl_kdtreequery and vl_vlad do not read arguments
 they were not given

---
 toolbox/misc/vl_kdtreequery.c | 10 +++++++---
 toolbox/vlad/vl_vlad.c        | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index 7837cf9..f62b951 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -51,9 +51,9 @@ mexFunction(int nout, mxArray *out[],
   mxArray const *optarg ;
 
   VlKDForest * forest ;
-  mxArray const * forest_array = in[IN_FOREST] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * query_array = in[IN_QUERY] ;
+  mxArray const * forest_array ;
+  mxArray const * data_array ;
+  mxArray const * query_array ;
   mxArray * distance_array ;
   void * query ;
   vl_uint32 * index ;
@@ -78,6 +78,10 @@ mexFunction(int nout, mxArray *out[],
     vlmxError(vlmxErrTooManyOutputArguments, NULL) ;
   }
 
+  forest_array = in[IN_FOREST] ;
+  data_array = in[IN_DATA] ;
+  query_array = in[IN_QUERY] ;
+
   forest = new_kdforest_from_array (forest_array, data_array) ;
 
   dataClass = mxGetClassID (data_array) ;
diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index e74e772..e8339c4 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -44,9 +44,9 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
   int next = IN_END ;
   mxArray const  *optarg ;
 
-  mxArray const * means_array = in[IN_MEANS] ;
-  mxArray const * data_array = in[IN_DATA] ;
-  mxArray const * assign_array = in[IN_ASSIGNMENTS] ;
+  mxArray const * means_array ;
+  mxArray const * data_array ;
+  mxArray const * assign_array ;
 
   vl_size numClusters ;
   vl_size dimension ;
@@ -131,6 +131,10 @@ mexFunction (int nout VL_UNUSED, mxArray * out[], int nin, const mxArray * in[])
    *                                                        Do the job
    * -------------------------------------------------------------- */
 
+  data_array = in[IN_DATA] ;
+  means_array = in[IN_MEANS] ;
+  assign_array = in[IN_ASSIGNMENTS] ;
+
   data = mxGetPr(data_array);
   means = mxGetPr(means_array);
   assignments = mxGetData(assign_array);
-- 
2.43.0


From 11ac806186bb6fbaa616989373d0e68e16e69060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 160/181] fix: vl_aib checks the class and size of PCX

---
 toolbox/aib/vl_aib.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index beb9d66..2e44b62 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -220,8 +220,8 @@ mexFunction(int nout, mxArray *out[],
     mexErrMsgTxt("Too many output arguments.");
   }
 
-  if (!vlmxIsMatrix(in[IN_PCX], -1, -1)) {
-    mexErrMsgTxt("PCX must be a real matrix.") ;
+  if (!vlmxIsPlainMatrix(in[IN_PCX], -1, -1) || mxIsEmpty(in[IN_PCX])) {
+    mexErrMsgTxt("PCX must be a non-empty real matrix.") ;
   }
 
   Pcx_cpy = mxDuplicateArray(in[IN_PCX]);
-- 
2.43.0


From c4d3d8ec82fb62ef43a5d18228d908742ddc2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 161/181] fix: vl_kmeans and vl_gmm refuse sparse data

---
 toolbox/gmm/vl_gmm.c       | 4 ++++
 toolbox/kmeans/vl_kmeans.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/toolbox/gmm/vl_gmm.c b/toolbox/gmm/vl_gmm.c
index f0492ce..b3c880b 100644
--- a/toolbox/gmm/vl_gmm.c
+++ b/toolbox/gmm/vl_gmm.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (!vlmxIsMatrix(IN(DATA), -1, -1)) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a dense matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
diff --git a/toolbox/kmeans/vl_kmeans.c b/toolbox/kmeans/vl_kmeans.c
index 4976a1b..2c1e06b 100644
--- a/toolbox/kmeans/vl_kmeans.c
+++ b/toolbox/kmeans/vl_kmeans.c
@@ -107,6 +107,10 @@ mexFunction (int nout, mxArray * out[], int nin, const mxArray * in[])
       abort() ;
   }
 
+  if (!vlmxIsMatrix(IN(DATA), -1, -1)) {
+    vlmxError (vlmxErrInvalidArgument, "DATA is not a dense matrix.") ;
+  }
+
   dimension = mxGetM (IN(DATA)) ;
   numData = mxGetN (IN(DATA)) ;
 
-- 
2.43.0


From 4b1e5f66bb7c4dca1ab744eb5bedf5c0339521ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 162/181] fix: vl_hog requires the descriptor to render and
 deletes its object

---
 toolbox/misc/vl_hog.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index a2bffdf..85b65e1 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -88,6 +88,9 @@ mexFunction(int nout, mxArray *out[],
     } else if (vlmxIsEqualToStringI(string_array, "render")) {
       /* image = vl_hog('render', descriptor) */
       mode = Render ;
+      if (nin < 2) {
+        vlmxError(vlmxErrNotEnoughInputArguments, NULL) ;
+      }
       descriptor_array = IN(CELLSIZE) ;
       next = 2 ;
       if (! mxIsNumeric(descriptor_array) ||
@@ -271,6 +274,7 @@ mexFunction(int nout, mxArray *out[],
       for (k = 0 ; k < dimension ; ++k) {
         permutationOut[k] = permutation[k] + 1 ;
       }
+      vl_hog_delete(hog) ;
       break ;
     }
 
@@ -297,6 +301,7 @@ mexFunction(int nout, mxArray *out[],
       vl_hog_render(hog,
                     mxGetData(OUT(FEATURES)),
                     descriptor, height, width) ;
+      vl_hog_delete(hog) ;
       break ;
     }
   }
-- 
2.43.0


From b084ed1c6866a446ec2f9c6a76d7aaf0ae82ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:46 +0000
Subject: [PATCH 163/181] fix: vl_aib ClusterNull when fewer than two values
 are not null

---
 toolbox/aib/vl_aib.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/toolbox/aib/vl_aib.c b/toolbox/aib/vl_aib.c
index 2e44b62..aa0c1f7 100644
--- a/toolbox/aib/vl_aib.c
+++ b/toolbox/aib/vl_aib.c
@@ -66,7 +66,7 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
     }
   }
 
-  if (nnull == 0) return ;
+  if (nnull == 0 || nvalues == 1) return ;
 
   /* = : leaves
    * 0 : null leaves
@@ -159,16 +159,22 @@ cluster_null_nodes (vl_uint32* parents, vl_uint32 nvalues, double *cost, int ver
     mexPrintf("vl_aib: after chaining other nulls last_intermed:%u\n", last_intermed)  ;
   }
 
-  /* make last_intermed point to d */
-  parents [last_intermed] = d ;
-
-  /* change parent of first to be last_intermed */
-  if (verbosity > 1) {
-    mexPrintf("vl_aib: parent of %u (first) was %u\n", first, parents[first]) ;
-  }
-  parents [first] = last_intermed ;
-  if (verbosity > 1) {
-    mexPrintf("vl_aib: parent of %u (first) is now %u\n", first, parents[first]) ;
+  if (nnull == nvalues) {
+    /* nothing was merged: the null nodes are the whole tree */
+    parents [e] = 0 ;
+    c = e ;
+  } else {
+    /* make last_intermed point to d */
+    parents [last_intermed] = d ;
+
+    /* change parent of first to be last_intermed */
+    if (verbosity > 1) {
+      mexPrintf("vl_aib: parent of %u (first) was %u\n", first, parents[first]) ;
+    }
+    parents [first] = last_intermed ;
+    if (verbosity > 1) {
+      mexPrintf("vl_aib: parent of %u (first) is now %u\n", first, parents[first]) ;
+    }
   }
 
   /* fix cost too (reall that the fist entry is the cost before
-- 
2.43.0


From ba176014e44f53cd9544f2b3051e2dec004ae8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:31 +0000
Subject: [PATCH 164/181] fix: the windows of quick shift do not exceed the
 image

---
 vl/quickshift.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vl/quickshift.c b/vl/quickshift.c
index b4b1cfc..1e3729a 100644
--- a/vl/quickshift.c
+++ b/vl/quickshift.c
@@ -280,8 +280,12 @@ void vl_quickshift_process(VlQS * q)
   /* the density is accumulated below */
   memset(E, 0, sizeof(vl_qs_type) * N1 * N2) ;
 
-  R = (int) ceil (3 * sigma) ;
-  tR = (int) ceil (tau) ;
+  /* no window is larger than the image */
+  {
+    double size = VL_MAX(N1, N2) ;
+    R = (int) VL_MAX(-1, VL_MIN(ceil (3 * sigma), size)) ;
+    tR = (int) VL_MAX(-1, VL_MIN(ceil (tau), size)) ;
+  }
 
   /* -----------------------------------------------------------------
    *                                                                 n
-- 
2.43.0


From 3b8faebb897c451c33175b6bf357a844a0306e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:48 +0000
Subject: [PATCH 165/181] fix: the option tables of vl_vlad and vl_fisher are
 terminated

---
 toolbox/fisher/vl_fisher.c | 3 ++-
 toolbox/vlad/vl_vlad.c     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/toolbox/fisher/vl_fisher.c b/toolbox/fisher/vl_fisher.c
index d5233c0..fc8874d 100644
--- a/toolbox/fisher/vl_fisher.c
+++ b/toolbox/fisher/vl_fisher.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Normalized",          0,   opt_normalized               },
   {"SquareRoot",          0,   opt_square_root              },
   {"Improved",            0,   opt_improved                 },
-  {"Fast",                0,   opt_fast                     }
+  {"Fast",                0,   opt_fast                     },
+  {0,                     0,   0                   }
 } ;
 
 /* driver */
diff --git a/toolbox/vlad/vl_vlad.c b/toolbox/vlad/vl_vlad.c
index e8339c4..b18e692 100644
--- a/toolbox/vlad/vl_vlad.c
+++ b/toolbox/vlad/vl_vlad.c
@@ -30,7 +30,8 @@ vlmxOption  options [] = {
   {"Unnormalized",        0,   opt_unnormalized             },
   {"NormalizeComponents", 0,   opt_normalize_components     },
   {"NormalizeMass",       0,   opt_normalize_mass           },
-  {"SquareRoot",          0,   opt_square_root              }
+  {"SquareRoot",          0,   opt_square_root              },
+  {0,                     0,   0                            }
 } ;
 
 /* driver */
-- 
2.43.0


From 4569f0f5534a869dbffae1fd811aa1fc25404a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:13 +0000
Subject: [PATCH 166/181] fix: the list of descriptors of vl_covdet is
 terminated

---
 toolbox/sift/vl_covdet.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index deb54f8..05d7f27 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -93,12 +93,13 @@ const char* vlCovDetDescriptorNames [VL_COVDET_DESC_NUM] =
     "None", "Patch", "SIFT","LIOP"
 } ;
 
-VlEnumerator vlCovDetDescriptorTypes [VL_COVDET_DESC_NUM] =
+VlEnumerator vlCovDetDescriptorTypes [VL_COVDET_DESC_NUM + 1] =
 {
   {"None" ,   (vl_index)VL_COVDET_DESC_NONE             },
   {"Patch",   (vl_index)VL_COVDET_DESC_PATCH            },
   {"SIFT",    (vl_index)VL_COVDET_DESC_SIFT             },
-  {"LIOP",    (vl_index)VL_COVDET_DESC_LIOP             }
+  {"LIOP",    (vl_index)VL_COVDET_DESC_LIOP             },
+  {0,         0                                         }
 } ;
 
 /** ------------------------------------------------------------------
-- 
2.43.0


From d6e903a8fe11ecc2ed760731d7794a361c91db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:25 +0000
Subject: [PATCH 167/181] fix: vl_covdet refuses an empty image

---
 toolbox/sift/vl_covdet.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/toolbox/sift/vl_covdet.c b/toolbox/sift/vl_covdet.c
index 05d7f27..ddbe00c 100644
--- a/toolbox/sift/vl_covdet.c
+++ b/toolbox/sift/vl_covdet.c
@@ -254,6 +254,9 @@ mexFunction(int nout, mxArray *out[],
       mxGetClassID(IN(I)) != mxSINGLE_CLASS){
     vlmxError(vlmxErrInvalidArgument, "I must be a matrix of class SINGLE.") ;
   }
+  if (mxIsEmpty(IN(I))) {
+    vlmxError(vlmxErrInvalidArgument, "I is empty.") ;
+  }
 
   image = (float*) mxGetData(IN(I)) ;
   numRows = mxGetM(IN(I)) ;
-- 
2.43.0


From 3e6b0ecbfb2ffb7e8944aef346810ce7185b8330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 168/181] fix: vl_kdtreebuild refuses a negative, infinite or
 undefined NUMTREES

---
 toolbox/misc/vl_kdtreebuild.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_kdtreebuild.c b/toolbox/misc/vl_kdtreebuild.c
index 05c9dba..6b03142 100644
--- a/toolbox/misc/vl_kdtreebuild.c
+++ b/toolbox/misc/vl_kdtreebuild.c
@@ -112,10 +112,11 @@ mexFunction(int nout, mxArray *out[],
 
       case opt_num_trees :
         if (! vlmxIsScalar(optarg) ||
-            (numTrees = mxGetScalar(optarg)) < 1) {
+            ! (mxGetScalar(optarg) >= 1 && mxGetScalar(optarg) < 2147483648.0)) {
           vlmxError(vlmxErrInvalidOption,
                    "NUMTREES must be not smaller than one") ;
         }
+        numTrees = mxGetScalar(optarg) ;
         break ;
 
       case opt_verbose :
-- 
2.43.0


From 9a9ea98fb7da64ec69dd964e4fe159c1e22b5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:56 +0000
Subject: [PATCH 169/181] fix: vl_svmtrain refuses a null DIAGNOSTICFREQUENCY

---
 toolbox/misc/vl_svmtrain.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_svmtrain.c b/toolbox/misc/vl_svmtrain.c
index 8984e7a..ffcc75f 100644
--- a/toolbox/misc/vl_svmtrain.c
+++ b/toolbox/misc/vl_svmtrain.c
@@ -471,7 +471,12 @@ vlmxError(vlmxErrInvalidArgument, VL_STRINGIFY(NAME) " is negative.") ; \
       case opt_epsilon: GET_NN_SCALAR(EPSLON, epsilon) ; break ;
       case opt_bias_multiplier: GET_NN_SCALAR(BIASMULTIPLIER, biasMultipler) ; break ;
       case opt_max_num_iterations: GET_NN_SCALAR(MAXNUMITERATIONS, maxNumIterations) ; break ;
-      case opt_diagnostic_frequency: GET_NN_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ; break ;
+      case opt_diagnostic_frequency:
+        GET_NN_SCALAR(DIAGNOSTICFREQUENCY, diagnosticFrequency) ;
+        if (diagnosticFrequency < 1) {
+          vlmxError(vlmxErrInvalidArgument, "DIAGNOSTICFREQUENCY is smaller than one.") ;
+        }
+        break ;
       case opt_diagnostic_function:
         if (!mxIsClass(optarg ,"function_handle")) {
           mexErrMsgTxt("DIAGNOSTICSFUNCTION is not a function handle.");
-- 
2.43.0


From 73d6bec4df68b87fbb2d56526087f57b5cd6bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 170/181] fix: vl_kdtreequery refuses a negative, infinite or
 undefined NUMNEIGHBORS

---
 toolbox/misc/vl_kdtreequery.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toolbox/misc/vl_kdtreequery.c b/toolbox/misc/vl_kdtreequery.c
index f62b951..43a3251 100644
--- a/toolbox/misc/vl_kdtreequery.c
+++ b/toolbox/misc/vl_kdtreequery.c
@@ -102,10 +102,11 @@ mexFunction(int nout, mxArray *out[],
     switch (opt) {
       case opt_num_neighs :
         if (! vlmxIsScalar(optarg) ||
-            (numNeighbors = mxGetScalar(optarg)) < 1) {
+            ! (mxGetScalar(optarg) >= 1 && mxGetScalar(optarg) < 2147483648.0)) {
           vlmxError(vlmxErrInvalidArgument,
                     "NUMNEIGHBORS must be a scalar not smaller than one.") ;
         }
+        numNeighbors = mxGetScalar(optarg) ;
         break;
 
       case opt_max_num_comparisons :
-- 
2.43.0


From 1b971bc231b002cabd9480bb60d352c234f28472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:03 +0000
Subject: [PATCH 171/181] fix: vl_sift refuses frames and scale spaces that it
 cannot represent

---
 toolbox/sift/vl_sift.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/toolbox/sift/vl_sift.c b/toolbox/sift/vl_sift.c
index 55f0b4b..433f4c8 100644
--- a/toolbox/sift/vl_sift.c
+++ b/toolbox/sift/vl_sift.c
@@ -244,6 +244,15 @@ mexFunction(int nout, mxArray *out[],
       ikeys_array = mxDuplicateArray (optarg) ;
       nikeys      = mxGetN (optarg) ;
       ikeys       = mxGetPr (ikeys_array) ;
+      {
+        int i ;
+        for (i = 0 ; i < 4 * nikeys ; ++i) {
+          /* the geometry of a frame must be representable */
+          if (!(fabs (ikeys [i]) <= 1e6) || (i % 4 == 2 && ikeys [i] < 0)) {
+            mexErrMsgTxt("'Frames' contains an invalid frame.") ;
+          }
+        }
+      }
       if (! check_sorted (ikeys, nikeys)) {
         qsort (ikeys, nikeys, 4 * sizeof(double), korder) ;
       }
@@ -272,6 +281,17 @@ mexFunction(int nout, mxArray *out[],
     void              *descr  = 0 ;
     int                nframes = 0, reserved = 0, i,j,q ;
 
+    /* the library indexes the scale space by integers */
+    {
+      double scale  = pow (2.0, - (double) o_min) ;
+      double width  = floor (M * scale) ;
+      double height = floor (N * scale) ;
+      double nlevels = VL_MAX(S + 2.0, 2.0 * S - 2.0) ;
+      if (width < 1 || height < 1 || width * height * nlevels > 2147483647.0) {
+        mexErrMsgTxt("The scale space of I is empty or too large.") ;
+      }
+    }
+
     /* create a filter to process the image */
     filt = vl_sift_new (M, N, O, S, o_min) ;
 
-- 
2.43.0


From ff53901b7b656644431bcd1891eb457af66cc63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:50 +0000
Subject: [PATCH 172/181] fix: vl_hog refuses an undefined or infinite CELLSIZE
 or NUMORIENTATIONS

---
 toolbox/misc/vl_hog.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/toolbox/misc/vl_hog.c b/toolbox/misc/vl_hog.c
index 85b65e1..319010b 100644
--- a/toolbox/misc/vl_hog.c
+++ b/toolbox/misc/vl_hog.c
@@ -141,10 +141,14 @@ mexFunction(int nout, mxArray *out[],
       vlmxError(vlmxErrInvalidArgument,
                 "CELLSIZE is not a plain scalar.") ;
     }
-    if (mxGetScalar(IN(CELLSIZE)) < 1.0) {
+    if (! (mxGetScalar(IN(CELLSIZE)) >= 1.0)) {
       vlmxError(vlmxErrInvalidArgument,
                 "CELLSIZE is less than 1.") ;
     }
+    if (mxGetScalar(IN(CELLSIZE)) > 0x7fffffff) {
+      vlmxError(vlmxErrInvalidArgument,
+                "CELLSIZE is too large.") ;
+    }
     cellSize = (vl_size) mxGetScalar(IN(CELLSIZE)) ;
     image = mxGetData(IN(I)) ;
     height = mxGetDimensions(IN(I))[0] ;
@@ -171,9 +175,12 @@ mexFunction(int nout, mxArray *out[],
         if (! vlmxIsPlainScalar(optarg)) {
           vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is not a plain scalar.") ;
         }
-        if (mxGetScalar(optarg) < 1) {
+        if (! (mxGetScalar(optarg) >= 1)) {
           vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is smaller than one.") ;
         }
+        if (mxGetScalar(optarg) > 0x7fffffff) {
+          vlmxError(vlmxErrInvalidArgument, "NUMORIENTATIONS is too large.") ;
+        }
         numOrientations = mxGetScalar(optarg) ;
         break;
 
-- 
2.43.0


From 30edb19ae5ff2d04449c5875c5374933a8f56a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:50 +0000
Subject: [PATCH 173/181] fix: dense SIFT of undefined pixels stays within the
 orientation bins

---
 vl/dsift.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vl/dsift.c b/vl/dsift.c
index 3930752..58329a3 100644
--- a/vl/dsift.c
+++ b/vl/dsift.c
@@ -712,7 +712,7 @@ void vl_dsift_process (VlDsiftFilter* self, float const* im)
 
       /* quantize angle */
       nt = vl_mod_2pi_f (angle) * (self->geom.numBinT / (2*VL_PI)) ;
-      bint = (int) vl_floor_f (nt) ;
+      bint = (nt >= 0) ? (int) vl_floor_f (nt) : 0 ; /* nt may be NaN */
       rbint = nt - bint ;
 
       /* write it back */
-- 
2.43.0


From 61597fb13c264d852ccec0fbcafc569fb5fd5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:51 +0000
Subject: [PATCH 174/181] fix: vl_dsift clips BOUNDS to the image on both sides

---
 toolbox/sift/vl_dsift.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/sift/vl_dsift.c b/toolbox/sift/vl_dsift.c
index 972ac8a..3fb531a 100644
--- a/toolbox/sift/vl_dsift.c
+++ b/toolbox/sift/vl_dsift.c
@@ -215,10 +215,10 @@ mexFunction(int nout, mxArray *out[],
 
     if (bounds) {
       vl_dsift_set_bounds(dsift,
-                          VL_MAX(bounds[1], 0),
-                          VL_MAX(bounds[0], 0),
-                          VL_MIN(bounds[3], M - 1),
-                          VL_MIN(bounds[2], N - 1));
+                          VL_MIN(VL_MAX(bounds[1], 0), M),
+                          VL_MIN(VL_MAX(bounds[0], 0), N),
+                          VL_MAX(VL_MIN(bounds[3], M - 1), -1),
+                          VL_MAX(VL_MIN(bounds[2], N - 1), -1));
     }
     vl_dsift_set_flat_window(dsift, useFlatWindow) ;
 
-- 
2.43.0


From 877d4b15e702cead50cdcda46bacce836534df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:58 +0000
Subject: [PATCH 175/181] fix: L1 k-means updates every coordinate of the
 centers after restarting an empty cluster

The loop restarting the centers of empty clusters was nested in the loop
over the dimensions and reused its counter, so that the remaining
coordinates of all the other centers were left unchanged (Lloyd and ANN).
---
 vl/kmeans.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vl/kmeans.c b/vl/kmeans.c
index a258329..82cdaac 100644
--- a/vl/kmeans.c
+++ b/vl/kmeans.c
@@ -944,15 +944,15 @@ VL_XCAT(_vl_kmeans_refine_centers_lloyd_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
@@ -1120,15 +1120,15 @@ VL_XCAT(_vl_kmeans_refine_centers_ann_, SFX)
             }
             numSeenSoFar[c] ++ ;
           }
-          /* restart the centers as required  */
-          for (c = 0 ; c < self->numCenters ; ++c) {
-            if (clusterMasses[c] == 0) {
-              TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
-              vl_uindex x = vl_rand_uindex(rand, numData) ;
-              numRestartedCenters ++ ;
-              for (d = 0 ; d < self->dimension ; ++d) {
-                cpt[d] = data[x * self->dimension + d] ;
-              }
+        }
+        /* restart the centers as required  */
+        for (c = 0 ; c < self->numCenters ; ++c) {
+          if (clusterMasses[c] == 0) {
+            TYPE * cpt = (TYPE*)self->centers + c * self->dimension ;
+            vl_uindex x = vl_rand_uindex(rand, numData) ;
+            numRestartedCenters ++ ;
+            for (d = 0 ; d < self->dimension ; ++d) {
+              cpt[d] = data[x * self->dimension + d] ;
             }
           }
         }
-- 
2.43.0


From 4e8df4dfcedbed167f6398646f4041e33fb9c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 176/181] fix: vl_plotsiftdescriptor plots several descriptors
 at frames given by their centers

---
 toolbox/sift/vl_plotsiftdescriptor.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/sift/vl_plotsiftdescriptor.m b/toolbox/sift/vl_plotsiftdescriptor.m
index c1a2cc7..cab0e67 100644
--- a/toolbox/sift/vl_plotsiftdescriptor.m
+++ b/toolbox/sift/vl_plotsiftdescriptor.m
@@ -61,7 +61,7 @@ if nargin > 1
 
   if size(f,1) == 2
     % translation only
-    f(3:6,:) = deal([10 0 0 10]') ;
+    f(3:6,:) = repmat([10 0 0 10]', 1, size(f,2)) ;
     %f = [f; 10 * ones(1, size(f,2)) ; 0 * zeros(1, size(f,2))] ;
   end
 
-- 
2.43.0


From 26215a16edad4db63e12085661413b8b1279c5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 177/181] fix: vl_imarraysc scales color images together when
 UNIFORM is set

---
 toolbox/imop/vl_imarraysc.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/imop/vl_imarraysc.m b/toolbox/imop/vl_imarraysc.m
index c06af1e..a2c83da 100644
--- a/toolbox/imop/vl_imarraysc.m
+++ b/toolbox/imop/vl_imarraysc.m
@@ -70,7 +70,7 @@ if isinteger(A)
   A = single(A) ;
 end
 
-if opts.uniform && numDimensions < 4
+if opts.uniform
   opts.clim = [min(A(:)) max(A(:))] ;
 end
 
-- 
2.43.0


From c1f54604baa5cd6cec7905d31c2a4fa78fe47c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:12 +0000
Subject: [PATCH 178/181] fix: vl_roc places the legend by the location names
 that Octave accepts too

---
 toolbox/plotop/vl_roc.m | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/toolbox/plotop/vl_roc.m b/toolbox/plotop/vl_roc.m
index 335e573..c2e586c 100644
--- a/toolbox/plotop/vl_roc.m
+++ b/toolbox/plotop/vl_roc.m
@@ -201,7 +201,7 @@ if do_plots
       plot(1-info.eer, 1-info.eer, 'k*', 'linewidth', 1) ;
       xlabel('true negative rate') ;
       ylabel('true positive rate (recall)') ;
-      loc = 'sw' ;
+      loc = 'southwest' ;
 
     case 'fptp'
       hroc = plot(fpr, tpr, 'b', 'linewidth', 2) ;
@@ -210,7 +210,7 @@ if do_plots
       plot(info.eer, 1-info.eer, 'k*', 'linewidth', 1) ;
       xlabel('false positive rate') ;
       ylabel('true positive rate (recall)') ;
-      loc = 'se' ;
+      loc = 'southeast' ;
 
     case 'tptn'
       hroc = plot(tpr, tnr, 'b', 'linewidth', 2) ;
@@ -219,7 +219,7 @@ if do_plots
       plot(1-info.eer, 1-info.eer, 'k*', 'linewidth', 1) ;
       xlabel('true positive rate (recall)') ;
       ylabel('false positive rate') ;
-      loc = 'sw' ;
+      loc = 'southwest' ;
 
     case 'fpfn'
       hroc = plot(fpr, fnr, 'b', 'linewidth', 2) ;
@@ -228,7 +228,7 @@ if do_plots
       plot(info.eer, info.eer, 'k*', 'linewidth', 1) ;
       xlabel('false positive (false alarm) rate') ;
       ylabel('false negative (miss) rate') ;
-      loc = 'ne' ;
+      loc = 'northeast' ;
 
     otherwise
       error('''%s'' is not a valid PLOT type.', opts.plot);
-- 
2.43.0


From d4f7a4313269a866949fcc134489e48068993b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:54 +0000
Subject: [PATCH 179/181] fix: vl_harris returns the factor RHO of the score,
 of the ratio of the eigenvalues as documented

---
 toolbox/vl_harris.m | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toolbox/vl_harris.m b/toolbox/vl_harris.m
index 83b059c..439fe9b 100644
--- a/toolbox/vl_harris.m
+++ b/toolbox/vl_harris.m
@@ -97,7 +97,7 @@ if nargout > 1
   Lm = real(Lm) ;
   Lp = real(Lp) ;
 
-  gamma=sqrt(Lm./Lp) ;
+  gamma = Lm./Lp ;
 
   details.sigmap = Lp ;
   if nargin > 2
-- 
2.43.0


From 2698aa4c9f6471150cb1542222114e16b1c6a5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:54 +0000
Subject: [PATCH 180/181] fix: vl_imwhiten weighs each frequency of the image
 by its own modulus

---
 toolbox/imop/vl_imwhiten.m | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/toolbox/imop/vl_imwhiten.m b/toolbox/imop/vl_imwhiten.m
index 999ff92..2eb7a42 100644
--- a/toolbox/imop/vl_imwhiten.m
+++ b/toolbox/imop/vl_imwhiten.m
@@ -25,8 +25,8 @@ if ~exist('cutoff','var'), cutoff = [] ; end
 
 % Frequency domain
 fn = 0.5 ; % Nyquist freq (=1/2T, T=1)
-fx_range=linspace(-fn, fn, N) ;
-fy_range=linspace(-fn, fn, M) ;
+fx_range=((0:N-1) - floor(N/2)) / N ;
+fy_range=((0:M-1) - floor(M/2)) / M ;
 [fx fy]=meshgrid(fx_range, fy_range) ;
 
 % Whitening filter
@@ -41,4 +41,4 @@ if ~isempty(cutoff)
 end
 
 % Apply filter
-J = real(ifft2(fft2(I).*fftshift(filt))) ;
+J = real(ifft2(fft2(I).*ifftshift(filt))) ;
-- 
2.43.0


From b4f8599c83bf106687930ec9c84b36d871d6c520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:54 +0000
Subject: [PATCH 181/181] fix: vl_threads returns the maximum number of threads
 as documented

---
 toolbox/misc/vl_threads.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/toolbox/misc/vl_threads.c b/toolbox/misc/vl_threads.c
index fd2fba3..a8dc4fe 100644
--- a/toolbox/misc/vl_threads.c
+++ b/toolbox/misc/vl_threads.c
@@ -14,17 +14,17 @@ the terms of the BSD license (see the COPYING file).
 #include "mexutils.h"
 
 void
-mexFunction(int nout VL_UNUSED, mxArray *out[],
+mexFunction(int nout, mxArray *out[],
             int nin, const mxArray *in[])
 {
   enum {IN_NUM = 0} ;
-  enum {OUT_NUM = 0} ;
+  enum {OUT_NUM = 0, OUT_MAXNUM} ;
   vl_size numThreads ;
 
   numThreads = vl_get_max_threads() ;
 
-  if (nout > 1) {
-    vlmxError(vlmxErrInvalidArgument, "More than one ouptut argumnets requested.") ;
+  if (nout > 2) {
+    vlmxError(vlmxErrInvalidArgument, "More than two output arguments requested.") ;
   }
   if (nin > 1) {
     vlmxError(vlmxErrInvalidArgument, "More than one input argument specified.") ;
@@ -32,6 +32,9 @@ mexFunction(int nout VL_UNUSED, mxArray *out[],
 
 
   OUT(NUM) = vlmxCreatePlainScalar (numThreads) ;
+  if (nout > 1) {
+    OUT(MAXNUM) = vlmxCreatePlainScalar (vl_get_thread_limit()) ;
+  }
 
   if (nin == 0) {
     return ;
-- 
2.43.0

