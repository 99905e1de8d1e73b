From d133283740e45278fe0693620c18550f5a474c0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:28:48 +0000
Subject: [PATCH 01/17] fix: skip the batch padding of the bra primitives in
 the ERI loops

The shell pair data is padded to a multiple of SIMINT_SIMD_LEN after every
SIMINT_NSHELL_SIMD shell pairs. The ket loop follows that layout but the bra
loop did not, giving wrong integrals when a bra multi shellpair has more than
SIMINT_NSHELL_SIMD pairs and a batch needed padding.
---
 generator/ostei/OSTEIDeriv1_Writer.cpp | 3 +++
 generator/ostei/OSTEI_Writer.cpp       | 3 +++
 skel/ostei_s_s_s_s.c                   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/generator/ostei/OSTEIDeriv1_Writer.cpp b/generator/ostei/OSTEIDeriv1_Writer.cpp
index 129d2da..f32227e 100644
--- a/generator/ostei/OSTEIDeriv1_Writer.cpp
+++ b/generator/ostei/OSTEIDeriv1_Writer.cpp
@@ -931,7 +931,10 @@ void OSTEIDeriv1_Writer::Write_Full_(void) const
     os_ << indent2 << "}   // close loop cdbatch\n";
 
     os_ << "\n";
+    os_ << indent2 << "// the primitives of every batch of SIMINT_NSHELL_SIMD shell pairs are padded\n";
     os_ << indent2 << "istart = iend;\n";
+    os_ << indent2 << "if(((ab+1) % SIMINT_NSHELL_SIMD) == 0)\n";
+    os_ << indent3 << "istart = SIMINT_SIMD_ROUND(istart);\n";
 
     os_ << indent1 << "}  // close loop over ab\n";
     os_ << "\n";
diff --git a/generator/ostei/OSTEI_Writer.cpp b/generator/ostei/OSTEI_Writer.cpp
index 25d4987..d9e9c22 100644
--- a/generator/ostei/OSTEI_Writer.cpp
+++ b/generator/ostei/OSTEI_Writer.cpp
@@ -731,7 +731,10 @@ void OSTEI_Writer::Write_Full_(void) const
     os_ << indent2 << "}   // close loop cdbatch\n";
 
     os_ << "\n";
+    os_ << indent2 << "// the primitives of every batch of SIMINT_NSHELL_SIMD shell pairs are padded\n";
     os_ << indent2 << "istart = iend;\n";
+    os_ << indent2 << "if(((ab+1) % SIMINT_NSHELL_SIMD) == 0)\n";
+    os_ << indent3 << "istart = SIMINT_SIMD_ROUND(istart);\n";
 
     os_ << indent1 << "}  // close loop over ab\n";
     os_ << "\n";
diff --git a/skel/ostei_s_s_s_s.c b/skel/ostei_s_s_s_s.c
index 408432d..4bdbe96 100644
--- a/skel/ostei_s_s_s_s.c
+++ b/skel/ostei_s_s_s_s.c
@@ -314,7 +314,10 @@ int ostei_s_s_s_s(struct simint_multi_shellpair const P,
             
         }   // close loop cdbatch
 
+        // the primitives of every batch of SIMINT_NSHELL_SIMD shell pairs are padded
         istart = iend;
+        if(((ab+1) % SIMINT_NSHELL_SIMD) == 0)
+            istart = SIMINT_SIMD_ROUND(istart);
     }  // close loop over ab
     
     #if defined SIMINT_AVX512 || defined SIMINT_MICAVX512
-- 
2.43.0


From c2bcf48862bb4a735a409c5053c014d51b0f0fb7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 02/17] fix: do not overwrite the screening data of the ket in
 ostei_s_s_s_s

The (const) shell pair passed in was modified: with nshell12_clip < nshell12
the elements set to zero belong to real primitives of the next shell pair, and
later calls with a larger clip dropped their contributions.
---
 skel/ostei_s_s_s_s.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/skel/ostei_s_s_s_s.c b/skel/ostei_s_s_s_s.c
index 4bdbe96..2bdaf8c 100644
--- a/skel/ostei_s_s_s_s.c
+++ b/skel/ostei_s_s_s_s.c
@@ -204,12 +204,8 @@ int ostei_s_s_s_s(struct simint_multi_shellpair const P,
                     SIMINT_DBLTYPE prim_screen_res = SIMINT_DBLSET1(0.);
                     if(check_screen)
                     {
-		      if(jend -j < SIMINT_SIMD_LEN ){
-			//initialize remainders when vlen < SIMD_LEN			
-			for(n = jend; n < j+SIMINT_SIMD_LEN; n++)
-			  Q.screen[n] = 0.;
-		      }
-		      prim_screen_res = SIMINT_MUL(bra_screen_max, SIMINT_DBLLOAD(Q.screen, j));
+                        // only the first nlane elements belong to this batch
+                        prim_screen_res = SIMINT_MUL(bra_screen_max, mask_load(nlane, Q.screen + j));
                         const double vmax = vector_max(prim_screen_res);
                         if(vmax < screen_tol)
                         {
-- 
2.43.0


From eb1c05997debee361905a08ab3f7dcc678b9272e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:34:51 +0000
Subject: [PATCH 03/17] fix: align the transpose buffer of the AVX-512
 contract_all

It is read with the aligned _mm512_load_pd, but a plain array of doubles is not
guaranteed to be aligned to 64 bytes.
---
 skel/simint/vectorization/intrinsics_avx512.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skel/simint/vectorization/intrinsics_avx512.h b/skel/simint/vectorization/intrinsics_avx512.h
index c6832d3..4805cbe 100644
--- a/skel/simint/vectorization/intrinsics_avx512.h
+++ b/skel/simint/vectorization/intrinsics_avx512.h
@@ -105,7 +105,7 @@ union simint_double8
         int ntrans   = ncart  / 8;
         int np_start = ntrans * 8;
         
-        double tmp[64];
+        double tmp[64] __attribute__((aligned(64)));
         __m512d dst[8];
         
         // Transpose-Add part
-- 
2.43.0


From ecbcb57151436853d10365b1451a1b8717d5db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 04/17] fix: start the primitive count of combined shell pairs
 from zero

simint_cat_multi_shellpair and simint_cat_shellpairs added to whatever
the destination held before (uninitialized memory for a new one).
---
 skel/simint/shell/shell.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index 0c33be0..5059608 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -641,6 +641,7 @@ void simint_cat_multi_shellpair(int nmpair,
     // these should all have the same AM
     Pout->am1 = Pin[0]->am1;
     Pout->am2 = Pin[0]->am2;
+    Pout->nprim = 0;
     Pout->screen_max = 0.0;
 
     // now copy data
@@ -759,6 +760,7 @@ void simint_cat_shellpairs(
     // these should all have the same AM
     Pout->am1 = Pin[0]->am1;
     Pout->am2 = Pin[0]->am2;
+    Pout->nprim = 0;
     Pout->screen_max = 0.0;
 
     // now copy data
-- 
2.43.0


From bb897c415ed52accdc5f6921c5f67d3921a222e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 05/17] fix: simint_cat_multi_shellpair copied the first
 primitives for every pair

The primitives of each shell pair follow those of the pairs before it
(and the padding between batches) in the arrays of the input.
---
 skel/simint/shell/shell.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index 5059608..d6fcdad 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -649,9 +649,14 @@ void simint_cat_multi_shellpair(int nmpair,
     int sasb = 0;
     for(int i = 0; i < nmpair; i++)
     {
+        // where the primitives of the current pair start in Pin[i]
+        int pstart = 0;
+
         for(int j = 0; j < Pin[i]->nshell12; j++)
         {
-            for(int p = 0; p < Pin[i]->nprim12[j]; p++)
+            const int pend = pstart + Pin[i]->nprim12[j];
+
+            for(int p = pstart; p < pend; p++)
             {
                 Pout->x[idx] = Pin[i]->x[p];
                 Pout->y[idx] = Pin[i]->y[p];
@@ -717,6 +722,11 @@ void simint_cat_multi_shellpair(int nmpair,
                 }
             }
 
+            // the input is padded at the end of each batch
+            pstart = pend;
+            if(((j+1) % SIMINT_NSHELL_SIMD) == 0)
+                pstart = SIMINT_SIMD_ROUND(pstart);
+
             sasb++;
         }
 
-- 
2.43.0


From bdb8de030ec70531742ee6f0e4b57f8f2d555a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:34 +0000
Subject: [PATCH 06/17] fix: pad the screening values when combining shell
 pairs

The padding of the screen array was left uninitialized and is read by
the integral code when a tolerance is given.
---
 skel/simint/shell/shell.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index d6fcdad..4888adb 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -713,6 +713,9 @@ void simint_cat_multi_shellpair(int nmpair,
                     Pout->PB_y[idx] = 0.0;
                     Pout->PB_z[idx] = 0.0;
 
+                    if(screen_method)
+                        Pout->screen[idx] = 0.0;
+
                     #if SIMINT_OSTEI_MAXDER > 0
                     Pout->alpha2[idx] = 1.0;
                     Pout->beta2[idx] = 1.0;
@@ -864,6 +867,9 @@ void simint_cat_shellpairs(
                 Pout->PB_y[idx] = 0.0;
                 Pout->PB_z[idx] = 0.0;
 
+                if(screen_method)
+                    Pout->screen[idx] = 0.0;
+
                 #if SIMINT_OSTEI_MAXDER > 0
                 Pout->alpha2[idx] = 1.0;
                 Pout->beta2[idx] = 1.0;
-- 
2.43.0


From 084a66059a0d7240406f3e78e2a7bae7da45313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:06 +0000
Subject: [PATCH 07/17] fix: simint_primscreen_schwarz wrote past the end of
 its output

---
 skel/simint/shell/shell_screen.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/skel/simint/shell/shell_screen.c b/skel/simint/shell/shell_screen.c
index 2a1f3d7..a26bc68 100644
--- a/skel/simint/shell/shell_screen.c
+++ b/skel/simint/shell/shell_screen.c
@@ -154,7 +154,6 @@ simint_primscreen_schwarz(struct simint_shell const * A,
     double total_max = 0.0;
 
     int idx = 0;
-    int ij = 0;
     for(int i = 0; i < A->nprim; i++)
     {
         simint_create_shell(1, A->am, A->x, A->y, A->z,
@@ -201,15 +200,6 @@ simint_primscreen_schwarz(struct simint_shell const * A,
 
             if(max > total_max)
                 total_max = max;
-
-            ij++;
-
-            // pad out, if needed
-            if( (ij % SIMINT_NSHELL_SIMD) == 0 || ij >= A->nprim*B->nprim)
-            {
-                while(idx < SIMINT_SIMD_ROUND(idx))
-                    out[idx++] = 0.0;
-            }
         }
     }
 
-- 
2.43.0


From 5217ebf7053ac7392372bcf64864ee94af1e91d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:16 +0000
Subject: [PATCH 08/17] fix: simint_copy_shell read past the source when the
 destination was larger

---
 skel/simint/shell/shell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skel/simint/shell/shell.c b/skel/simint/shell/shell.c
index 4888adb..3289f07 100644
--- a/skel/simint/shell/shell.c
+++ b/skel/simint/shell/shell.c
@@ -241,7 +241,8 @@ void simint_copy_shell(struct simint_shell const * src,
     dest->y = src->y;
     dest->z = src->z;
 
-    memcpy(dest->ptr, src->ptr, dest->memsize);
+    memcpy(dest->alpha, src->alpha, src->nprim * sizeof(double));
+    memcpy(dest->coef, src->coef, src->nprim * sizeof(double));
 }
 
 
-- 
2.43.0


From e621edf2ccd59d08bdad76908a5232df9e09baf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:34 +0000
Subject: [PATCH 09/17] fix: keep the work array of the potential integrals off
 the stack

---
 skel/simint/osoei/osoei_potential.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/skel/simint/osoei/osoei_potential.c b/skel/simint/osoei/osoei_potential.c
index 56d43e4..a3d9064 100644
--- a/skel/simint/osoei/osoei_potential.c
+++ b/skel/simint/osoei/osoei_potential.c
@@ -1,4 +1,5 @@
 #include <math.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "simint/boys/boys.h"
@@ -35,8 +36,8 @@ int simint_compute_osoei_potential(int ncenter,
     const int ncart2 = NCART(am2);
     const int ncart12 = ncart1*ncart2;
 
-    //TODO - too big
-    double amwork[nam1][nam2][NCART(am1+1)*NCART(am2+1)*(nam1+nam2+1)];
+    // too big for the stack at high angular momentum
+    double (*amwork)[nam2][NCART(am1+1)*NCART(am2+1)*(nam1+nam2+1)] = malloc(nam1 * sizeof(*amwork));
 
     // Zero the output array
     memset(integrals, 0, ncart12*sizeof(double));
@@ -215,6 +216,8 @@ int simint_compute_osoei_potential(int ncenter,
         } // end loop over primitive b
     } // close loop over atoms
 
+    free(amwork);
+
     return 1;
 }
 
-- 
2.43.0


From 1d4e03d827bdcc90c8147b6e6771342267c23de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:04 +0000
Subject: [PATCH 10/17] fix: keep the file lists of each derivative order apart

With derivatives the lists for order 0 and 1 were the same object, so a
library generated with -d 1 could not be built with SIMINT_MAXDER=0.
---
 create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/create.py b/create.py
index f7caad1..09fd87c 100755
--- a/create.py
+++ b/create.py
@@ -216,7 +216,7 @@ reqext_vrr = []
 
 # This keeps track of which L values require what
 # files (ERI, VRR, HRR)
-filelists = [{ k: [] for k in range(0, maxam+1) }]*(derorder+1)
+filelists = [{ k: [] for k in range(0, maxam+1) } for d in range(0, derorder+1)]
 
 # This keeps track of the buffer sizes (also by derivative)
 memreq = [{}]*(derorder+1)
@@ -662,7 +662,8 @@ for d in range(0, derorder+1):
       # Make a list of all requirements up to this one
       allr = []
       for l2 in range(0, l+1):
-        allr.extend(filelists[d][l2])
+        for d2 in range(0, d+1):
+          allr.extend(filelists[d2][l2])
 
       # Write out to file
       fpath = os.path.join(outdir_osteigen, "filelist_d{}_{}".format(d, l))
-- 
2.43.0


From edfa2e4ac83daeb0714044bd08ed370ea1274b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:40 +0000
Subject: [PATCH 11/17] fix: list the permuted external VRR files a class
 depends on

The file lists named vrr_J_s_p_s_s.c but not vrr_I_p_s_s_s.c, which it
calls, so a library with external VRR did not link for a low maximum
angular momentum.
---
 create.py | 62 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/create.py b/create.py
index 09fd87c..9c83044 100755
--- a/create.py
+++ b/create.py
@@ -30,6 +30,29 @@ def QStr(q):
   return "( {} {} | {} {} )".format(q[0], q[1], q[2], q[3])
 
 
+# All external VRR files needed for a given external VRR. These are
+# the VRR itself and the permutation that will actually compute stuff
+# (of the form (X s | X s) )
+def VRRFiles(v):
+  if v[1] == "0" and v[3] == "0":
+    if v[0] == "J":
+      return [v, ("I", v[2], v[1], v[4], v[3])]
+    else:
+      return [v, ("K", v[2], v[1], v[4], v[3])]
+  elif v[1] == "0":
+    if v[0] == "J":
+      return [v, ("I", v[2], v[1], v[3], v[4])]
+    else:
+      return [v, ("K", v[2], v[1], v[3], v[4])]
+  elif v[3] == "0":
+    if v[0] == "L":
+      return [v, ("K", v[1], v[2], v[4], v[3])]
+    else:
+      return [v, ("I", v[1], v[2], v[4], v[3])]
+  else:
+    return [v]
+
+
 # The following function allows the use of multiprocess package
 def runostei(lock, arg):
   i, q = arg
@@ -278,11 +301,12 @@ for q in valid:
     elif line.startswith("SIMINT EXTERNAL VRR"):
       reqam = tuple(line.split()[3:])
       reqext_vrr.append(reqam)
-      filelists[0][mq].append( "vrr_{}_{}_{}_{}_{}.c".format(reqam[0],
-                                                             amchar[int(reqam[1])],
-                                                             amchar[int(reqam[2])],
-                                                             amchar[int(reqam[3])],
-                                                             amchar[int(reqam[4])]) )
+      for v in VRRFiles(reqam):
+        filelists[0][mq].append( "vrr_{}_{}_{}_{}_{}.c".format(v[0],
+                                                               amchar[int(v[1])],
+                                                               amchar[int(v[2])],
+                                                               amchar[int(v[3])],
+                                                               amchar[int(v[4])]) )
 
 print()
 
@@ -397,11 +421,12 @@ for q in valid:
     elif line.startswith("SIMINT EXTERNAL VRR"):
       reqam = tuple(line.split()[3:])
       reqext_vrr.append(reqam)
-      filelists[1][mq].append( "vrr_{}_{}_{}_{}_{}.c".format(reqam[0],
-                                                             amchar[int(reqam[1])],
-                                                             amchar[int(reqam[2])],
-                                                             amchar[int(reqam[3])],
-                                                             amchar[int(reqam[4])]) )
+      for v in VRRFiles(reqam):
+        filelists[1][mq].append( "vrr_{}_{}_{}_{}_{}.c".format(v[0],
+                                                               amchar[int(v[1])],
+                                                               amchar[int(v[2])],
+                                                               amchar[int(v[3])],
+                                                               amchar[int(v[4])]) )
 
   print()
 
@@ -559,22 +584,7 @@ reqext_vrr_tmp = set(reqext_vrr)
 reqext_vrr = set()
 
 for v in reqext_vrr_tmp:
-  reqext_vrr.add(v)
-  if v[1] == "0" and v[3] == "0":
-    if v[0] == "J":
-      reqext_vrr.add(("I", v[2], v[1], v[4], v[3]))
-    else:
-      reqext_vrr.add(("K", v[2], v[1], v[4], v[3]))
-  elif v[1] == "0":
-    if v[0] == "J":
-      reqext_vrr.add(("I", v[2], v[1], v[3], v[4]))
-    else:
-      reqext_vrr.add(("K", v[2], v[1], v[3], v[4]))
-  elif v[3] == "0":
-    if v[0] == "L":
-      reqext_vrr.add(("K", v[1], v[2], v[4], v[3]))
-    else:
-      reqext_vrr.add(("I", v[1], v[2], v[4], v[3]))
+  reqext_vrr.update(VRRFiles(v))
 
 
 print()
-- 
2.43.0


From 8839dc3928d8b8ade8d09db489edb7e9f6a09643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:47 +0000
Subject: [PATCH 12/17] fix: SSE vector_max returned zero when every lane is
 negative

---
 skel/simint/vectorization/intrinsics_sse.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skel/simint/vectorization/intrinsics_sse.h b/skel/simint/vectorization/intrinsics_sse.h
index a938909..d77134a 100644
--- a/skel/simint/vectorization/intrinsics_sse.h
+++ b/skel/simint/vectorization/intrinsics_sse.h
@@ -144,8 +144,8 @@ static inline __m128d simint_pow_vec2(__m128d a, __m128d p)
     double vector_max(__m128d v)
     {
         union simint_double2 m = { v };
-        double max = 0.0;
-        for(int n = 0; n < SIMINT_SIMD_LEN; n++)
+        double max = m.d[0];
+        for(int n = 1; n < SIMINT_SIMD_LEN; n++)
             max = (m.d[n] > max ? m.d[n] : max);
         return max;
     }
-- 
2.43.0


From ce51d70754ffa3ad6587df4b80be8cc228b65c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 13/17] fix: extend the Boys grid to the orders its Taylor
 expansion reads for l=7

The expansion for order n reads the entries up to n+7. With 31 as the highest order
in the table, orders above 24 (l=7, or derivatives for l=6) read entries of the
next row. Regenerated with gen_boys_shortgrid.py --max-n 36.
---
 skel/simint/boys/boys_shortgrid.c | 738 +++++++++++++++---------------
 skel/simint/boys/boys_shortgrid.h |   2 +-
 2 files changed, 370 insertions(+), 370 deletions(-)

diff --git a/skel/simint/boys/boys_shortgrid.c b/skel/simint/boys/boys_shortgrid.c
index 0b0b350..98f301c 100644
--- a/skel/simint/boys/boys_shortgrid.c
+++ b/skel/simint/boys/boys_shortgrid.c
@@ -1,9 +1,9 @@
 /*
  Generated with:
-   ../../../python/boys/gen_boys_shortgrid.py --file boys_shortgrid --max-n 31 --max-x 36.5 --spacing 0.1
+   ../../../python/boys/gen_boys_shortgrid.py --file boys_shortgrid --max-n 36 --max-x 36.5 --spacing 0.1
 ------------------------------------
 Options for Boys function Fn(x):
-    Max n: 31
+    Max n: 36
     Max x: 36.5
   Spacing: 0.1
   npoints: 366
@@ -11,372 +11,372 @@ Options for Boys function Fn(x):
 ------------------------------------
 */
 
-const double boys_shortgrid[366][32] = 
+const double boys_shortgrid[366][37] = 
 {
-/* x = 0.0         */  {1.0                             , 0.333333333333333333            , 0.2                             , 0.142857142857142857            , 0.111111111111111111            , 0.0909090909090909091           , 0.0769230769230769231           , 0.0666666666666666667           , 0.0588235294117647059           , 0.0526315789473684211           , 0.047619047619047619            , 0.0434782608695652174           , 0.04                            , 0.037037037037037037            , 0.0344827586206896552           , 0.0322580645161290323           , 0.030303030303030303            , 0.0285714285714285714           , 0.027027027027027027            , 0.025641025641025641            , 0.0243902439024390244           , 0.0232558139534883721           , 0.0222222222222222222           , 0.0212765957446808511           , 0.0204081632653061224           , 0.019607843137254902            , 0.0188679245283018868           , 0.0181818181818181818           , 0.017543859649122807            , 0.0169491525423728814           , 0.0163934426229508197           , 0.015873015873015873            , },
-/* x = 0.1         */  {0.967643312635591831            , 0.314029472998161289            , 0.186255004792621473            , 0.132188029635738948            , 0.102393947071065319            , 0.0835405280181414827           , 0.0705419508179836834           , 0.0610397129891415521           , 0.0537913840058185382           , 0.0480805503147778837           , 0.0434651897241010828           , 0.0396578308508158282           , 0.0364634576640223775           , 0.0337451178229993164           , 0.0314038159251098418           , 0.0293662189611291984           , 0.0275768487952278917           , 0.0259929610328042599           , 0.0245810905609476138           , 0.0233146635955106875           , 0.0221723109447862008           , 0.0211366535013732894           , 0.0201934126154593462           , 0.0193307482985550342           , 0.0185387599806351692           , 0.0178091050758185923           , 0.0171347041539431657           , 0.0165095106151410486           , 0.0159283289839905094           , 0.0153866702574973225           , 0.0148806357819122757           , 0.0144068233034462217           , },
-/* x = 0.2         */  {0.937150028797978684            , 0.296048189299992062            , 0.173534537054985821            , 0.122354830492368121            , 0.0943826509214874721           , 0.0767827630385134765           , 0.0646991008641659577           , 0.0558938953904389795           , 0.049194194446507084            , 0.0439263812815964213           , 0.0396762281808753649           , 0.0361750968010020104           , 0.0332411833626609533           , 0.0307470774713549343           , 0.0286008466215034188           , 0.0267344973640432192           , 0.0250966630183948392           , 0.0236478163226195912           , 0.0223570455342595805           , 0.0211998292240565479           , 0.0201564666505587781           , 0.0192109489873201069           , 0.0183501334419568451           , 0.0175631295251904271           , 0.0168408365149205401           , 0.0161755903828115116           , 0.0155608911135130851           , 0.0149911898455291228           , 0.0144617210652997339           , 0.0139683691102574388           , 0.0135075610680175811           , 0.0130761801777264708           , },
-/* x = 0.3         */  {0.908392877032750536            , 0.279291093918387782            , 0.161758435122409136            , 0.113289924883879687            , 0.0870187558423999078           , 0.0705843031664688398           , 0.0593485235823989523           , 0.0511876431491141905           , 0.044994044258324985            , 0.0401342195163447976           , 0.0362199168813888128           , 0.0330000563790786712           , 0.0303051267284859535           , 0.028016579217384951            , 0.0260490303127930181           , 0.0243394306487994296           , 0.0228402157184407513           , 0.0215148300447115443           , 0.0203347181386436388           , 0.0192772507468279517           , 0.0183242640742870866           , 0.0174610106067544756           , 0.0166753923478743103           , 0.0159573916210434934           , 0.0152986425122105417           , 0.0146921040276644611           , 0.0141318078819494196           , 0.013612661769335624            , 0.0131302943862357586           , 0.0126809322228672886           , 0.0122613007790869345           , 0.0118685447376419012           , },
-/* x = 0.4         */  {0.881254034939924496            , 0.263667486130356494            , 0.150853015444287727            , 0.104931288982249165            , 0.0802487210501310663           , 0.0648980542694253695           , 0.054448188660049705            , 0.0468830081812585806           , 0.0411563458540492596           , 0.0366722918539976414           , 0.0330668739878948582           , 0.0301053846376909014           , 0.0276297507890642893           , 0.0255296546137099154           , 0.0237257856681605194           , 0.0221596729262697024           , 0.0207872683484018425           , 0.0195747618270268762           , 0.0184957723878767068           , 0.0175294153947485621           , 0.0166589429494432756           , 0.01587076861441875             , 0.0151537554804586864           , 0.0144986882312519817           , 0.0138978760415047967           , 0.0133448499976196706           , 0.0128341298037048729           , 0.0123610419508987068           , 0.0119215765797369699           , 0.0115122737617099804           , 0.0111301323815619301           , 0.0107725365495480468           , },
-/* x = 0.5         */  {0.855624391892148803            , 0.24909373217951538             , 0.140750536825912715            , 0.0972220244169301519           , 0.0740235112058776398           , 0.0596809411402653349           , 0.0499596928302852604           , 0.0429453470810749614           , 0.0376495465034909974           , 0.0335116308467135329           , 0.030190326374923702            , 0.0274661941607643174           , 0.0251918059849458768           , 0.0232644899110134958           , 0.0216105678847309638           , 0.0201758089445645278           , 0.0189194175688669391           , 0.017810120059975568            , 0.016823542386511456            , 0.0159404085882904469           , 0.0151452752306940054           , 0.0144256247458207964           , 0.0137712043576608199           , 0.0131735363821034731           , 0.0126255502462298103           , 0.012121302352627282            , 0.0116557602713579603           , 0.0112246346693384704           , 0.0108242471009824472           , 0.0104514250433660664           , 0.0101034178459644965           , 0.00977782889120086437          , },
-/* x = 0.6         */  {0.831402871214021221            , 0.235492695933328991            , 0.131388709754967116            , 0.0901099272340076235           , 0.0682982121200224433           , 0.054893560821812964            , 0.0458479441215968095           , 0.0393430312389434092           , 0.0344448604084372543           , 0.030625825707839075            , 0.0275658769624299941           , 0.0250598167641695365           , 0.0229701245682274232           , 0.021201231759715957            , 0.0196846845152536726           , 0.0183701790402750597           , 0.0172199284620836816           , 0.0162050026289458826           , 0.0153028799325662142           , 0.0144957678424362432           , 0.0137694248008225435           , 0.0131123172830815415           , 0.0125150058987332114           , 0.0119696911241400686           , 0.0114698722837973272           , 0.0110100881767021656           , 0.0105857174314866793           , 0.0101928231456396414           , 0.00982803076346153693          , 0.00948843118606764371          , 0.00917150323663712197          , 0.00887505111736500631          , },
-/* x = 0.7         */  {0.808495806912583465            , 0.22279321651512425             , 0.122710246967116598            , 0.0835470936029810523           , 0.0630316795924698939           , 0.0504998661005853788           , 0.0420808737964497515           , 0.0360471825445980393           , 0.031516024555400768            , 0.0279907954645739576           , 0.0251712928824969137           , 0.0228656048150183382           , 0.0209454335385801877           , 0.0193218104807822699           , 0.0179311279926512668           , 0.0167267199967694455           , 0.0156735829346023549           , 0.0147449521789058558           , 0.0139200160502110283           , 0.0131823500474275242           , 0.0125188200416170915           , 0.0119187985106365979           , 0.0113735944042601406           , 0.0108760317144977222           , 0.0104201334214167358           , 0.0100008813271503847           , 0.00961403135232864805          , 0.00925596991572059431          , 0.00892360112373083739          , 0.00861425732946301189          , 0.00832562760493441919          , 0.00805570007827861117          , },
-/* x = 0.8         */  {0.78681637046172043             , 0.210929628965311774            , 0.114662451736696081            , 0.0774895591039117593           , 0.0581862185063504523           , 0.0464668765249577995           , 0.0386291735358213771           , 0.0330314324052851944           , 0.0288390762262852032           , 0.0255845823310167891           , 0.0229863126075608765           , 0.0208647504009730089           , 0.0191001844407235081           , 0.0176097793130413199           , 0.0163344233343087788           , 0.0152308203610831209           , 0.0142665419227219724           , 0.0134168245828771868           , 0.0126624351771749667           , 0.0119882108989076096           , 0.0113820380876094889           , 0.0108341234217296587           , 0.0103364643857210842           , 0.00988245827514199957          , 0.00946660925903274278          , 0.00908430598461425291          , 0.00873165068631581695          , 0.00840532641094794199          , 0.00810249280307201127          , 0.00782070353617690692          , 0.00755784032325994797          , 0.00731205975102202178          , },
-/* x = 0.9         */  {0.76628404352069614             , 0.199841324322276127            , 0.107196840681238483            , 0.0718969687031073898           , 0.0537272895450847871           , 0.0427644145362022065           , 0.0354660556431250888           , 0.0302717020111261349           , 0.0263921502368293954           , 0.023387163491944783            , 0.0209924703368620916           , 0.0190401207408360062           , 0.0174183984992383498           , 0.0160501681890886855           , 0.0148804896471085538           , 0.0138691889030827488           , 0.0129862201416478336           , 0.0122086694076552212           , 0.0115187608485186827           , 0.0109024953636623041           , 0.0103486996901281938           , 0.00984834864147601998          , 0.0093940732460387484           , 0.00897979796174698122          , 0.00860046914528278091          , 0.00825184909903175159          , 0.00793035795001123286          , 0.0076329508944423498           , 0.00735702191873895957          , 0.00710032757084532411          , 0.00686092607737500599          , 0.00663712832182014076          , },
-/* x = 1.0         */  {0.746824132812427025            , 0.189472345820492352            , 0.100268798145017367            , 0.0667322747768222568           , 0.0496232411331567381           , 0.0393648645134841608           , 0.0325670342384417239           , 0.0277460019641500443           , 0.0241552941454041711           , 0.0213802796502142938           , 0.0191729360913146307           , 0.0173761083730824617           , 0.0158855257047271492           , 0.014629350723368204            , 0.013556514179749593            , 0.0126297350206479381           , 0.0118211722343218805           , 0.0111096212805898677           , 0.0104786518246015238           , 0.00991533816940702972          , 0.00940937371771591874          , 0.00895244062745517334          , 0.00853775290456506606          , 0.00815971976699282546          , 0.00781369393861023742          , 0.00749578091022965594          , 0.00720269262513506575          , 0.00693163398035808159          , 0.00668021387412608286          , 0.00644637482687220083          , 0.00622833680700876379          , 0.00602455202804613487          , },
-/* x = 1.1         */  {0.728367323703093494            , 0.179771018184097246            , 0.0938372594791873564           , 0.0619614607717532857           , 0.0458450644109970211           , 0.0362429527276789258           , 0.0299097255938130136           , 0.0254342495552225563           , 0.022110299831935814            , 0.0195472788385587659           , 0.0175123701066077271           , 0.015858494791219416            , 0.0144883165908940978           , 0.0133349232155785873           , 0.0123508377829737741           , 0.0115014600037090431           , 0.0107609892804094468           , 0.0101098011615600867           , 0.00953270770751067402          , 0.0090177733999160843           , 0.00855549040847624283          , 0.00813819229520291032          , 0.0077596295434752683           , 0.00741465716286705465          , 0.00709900134394182519          , 0.0068090827977590369           , 0.00654188135801424022          , 0.00629483103485235378          , 0.0060657378267272293           , 0.00585271473880568943          , 0.00565412995066187412          , 0.00546856513286125822          , },
-/* x = 1.2         */  {0.710849269313848801            , 0.170689607250686127            , 0.0878644207666067847           , 0.0575532883003465944           , 0.0423661692459266935           , 0.0333755463754742271           , 0.0274736659241726675           , 0.0233181021258510751           , 0.020240549989818346            , 0.0178729741311290773           , 0.0159967902413543217           , 0.0144743263150994416           , 0.0132147055562854421           , 0.0121555945812224817           , 0.0112528507420020461           , 0.0104743581691071829           , 0.00979620472088357198          , 0.0092002266153982411           , 0.00867238317780680911          , 0.00820165236110410017          , 0.00777926257119075422          , 0.00739814729442451102          , 0.00705255072835494891          , 0.00673773785990441846          , 0.00644977812637732128          , 0.00618538178345276922          , 0.00594177460162047236          , 0.00571660082236789108          , 0.00550784721584663026          , 0.00531378307960659506          , 0.00513291241024458824          , 0.00496393546363241078          , },
-/* x = 1.3         */  {0.694210212260006337            , 0.162184007394612975            , 0.0823154727499332003           , 0.0534790656598666917           , 0.0391621794557900918           , 0.0307414700261916241           , 0.0252401450977289471           , 0.0213808050909475806           , 0.018530878203923502            , 0.0163435140125718967           , 0.0146134512326359362           , 0.0132118010966700217           , 0.01205370468822996             , 0.0110810862198986141           , 0.0102528980397115302           , 0.0095393269683160659           , 0.00891820883991747682          , 0.00837273026279389695          , 0.00788991006298991933          , 0.00745956896023631234          , 0.00707361400584753005          , 0.00672553123297543416          , 0.00641001922458887152          , 0.00612272002787946744          , 0.00586001856781629488          , 0.00561889107268686386          , 0.00539678910500671296          , 0.00519154981974737835          , 0.0050013257892666177           , 0.00482452959776330986          , 0.004659789705393338            , 0.00450591499806962102          , },
-/* x = 1.4         */  {0.678394636355279378            , 0.154213454433454607            , 0.077158356913841909            , 0.0497124359384296672           , 0.0362107455812147118           , 0.0283213379604735463           , 0.023192054865572333            , 0.0196070533252978045           , 0.0169674414063787825           , 0.0149462642738688661           , 0.0133507347363935642           , 0.0120601662580922752           , 0.0109953071408985184           , 0.0101020409217344584           , 0.00934219319472282163          , 0.0086880852519126251           , 0.00811917102417317894          , 0.00761988566289586713          , 0.00717822652133888303          , 0.00678479190997578404          , 0.00643211448123182164          , 0.00611418921032078946          , 0.00582613289363838209          , 0.00556393438290025604          , 0.00532426859096627031          , 0.00510435607705027434          , 0.00490185570998482652          , 0.00471478167413904585          , 0.00454143862001465879          , 0.00438037049972466923          , 0.00423031983648178849          , 0.00409019502992236456          , },
-/* x = 1.5         */  {0.663350945840334806            , 0.146740261897301659            , 0.0723635418478250493           , 0.0462291830302318058           , 0.0334913736877309372           , 0.026097401013716202            , 0.0213137503341494644           , 0.017982864731837736            , 0.0155376036097120705           , 0.0136697004055584563           , 0.0121980491857269472           , 0.0110096242506120207           , 0.0100303992052155488           , 0.0092099399939862971           , 0.00851273989640006429          , 0.00791309894905734518          , 0.0073919690907826239           , 0.00693493994913225328          , 0.00653091269039967864          , 0.00617120313211942694          , 0.00584892066807594057          , 0.00555852908089457819          , 0.00529553011001234443          , 0.00505623160070855678          , 0.00483757502829077991          , 0.00463700541260612883          , 0.00445237196482758051          , 0.00428185132914397931          , 0.00412388765149634441          , 0.00397714532895393414          , 0.00384047141995076182          , 0.00371286548952221406          , },
-/* x = 1.6         */  {0.649031169897861785            , 0.139729578719751993            , 0.067903818176437678            , 0.0430070540273540568           , 0.030985268811507184            , 0.0240534066590341398           , 0.0195909235171000405           , 0.0164954649148890994           , 0.0142298299152128381           , 0.0125033095512383873           , 0.0111457385871481097           , 0.0100512476048296548           , 0.00915068028638332871          , 0.00839702786403994041          , 0.00775726072950718207          , 0.00720751348782902233          , 0.00673012504001383865          , 0.00631175260181289595          , 0.00594213220899873425          , 0.0056132417932180496           , 0.0053187224815151644           , 0.00505346992108322867          , 0.00481334019122607014          , 0.00459493456578679615          , 0.00439543956166375327          , 0.00421250641464640676          , 0.00404415911009729252          , 0.00388872338765659227          , 0.00374477135201786449          , 0.00361107783448839614          , 0.00348658570004998871          , 0.00337037803387309467          , },
-/* x = 1.7         */  {0.635390690402152862            , 0.133149166573358298            , 0.0637541104903941889           , 0.0400255965880106748           , 0.0286751917833353157           , 0.0221744711756715268           , 0.0180104879057800425           , 0.0151331819771782064           , 0.0130335898838054252           , 0.0114375011682228172           , 0.0101849994539702576           , 0.00917690131783551765          , 0.00834859007573007521          , 0.00765624348250506763          , 0.00706913234555946348          , 0.00656509234367346783          , 0.00612774664739495662          , 0.00574473979744085834          , 0.00540657907579276229          , 0.00510585345635222195          , 0.00483669433676529581          , 0.00459439522195366997          , 0.00437513837978622314          , 0.00417579501107217381          , 0.00399377690225221137          , 0.0038269247522422667           , 0.00367342303282969155          , 0.00353173431977617699          , 0.0034005480985162012           , 0.00327874045961435832          , 0.0031653420777977914           , 0.00305951255674430154          , },
-/* x = 1.8         */  {0.622387991021315007            , 0.126969195222146797            , 0.0598913048457927367           , 0.037266010002049207            , 0.0265453282757660862           , 0.0204469628500856216           , 0.0165604730914875833           , 0.01388535054659779             , 0.0119392694381611979           , 0.0104635256186538405           , 0.00930780514801011987          , 0.00837917219072943859          , 0.0076172422681084859           , 0.00698115791142378033          , 0.00644232649634875854          , 0.00598016115903540534          , 0.00557947436347528534          , 0.00522882382586052163          , 0.00491942935653658856          , 0.00464444388062978849          , 0.00439845086749311471          , 0.00417711037378643467          , 0.00397690495867504238          , 0.00379495414410843576          , 0.0036288768198638729           , 0.00347668776437312048          , 0.00333671882262294615          , 0.0032075581603971133           , 0.00308800294451519259          , 0.00297702211549428877          , 0.00287372683127124978          , 0.00277734680165547171          , },
-/* x = 1.9         */  {0.609984425946011281            , 0.121162054400888481            , 0.0562940905210606291           , 0.034711008784912656            , 0.0245811690188825104           , 0.018858395249291458            , 0.0152299285577818383           , 0.0127422242180339068           , 0.0109380905389140919           , 0.00957339998392223948          , 0.00850683696628618354          , 0.00765130449194073728          , 0.00695036423473734334          , 0.00636591753836803445          , 0.0058713563982373362           , 0.00544755692795992029          , 0.00508043303792696749          , 0.00475938711288286171          , 0.00447629729691187028          , 0.00422483704292214418          , 0.00400000669771804487          , 0.0037978040483696808           , 0.00361498812033190044          , 0.00344890689271064923          , 0.00329736966704354246          , 0.00315855117434171792          , 0.00303091859705067396          , 0.00291317537396070188          , 0.00280421745926409224          , 0.00270309893563636977          , 0.00260900473155546416          , 0.00252122879006533184          , },
-/* x = 2.0         */  {0.598144006661304101            , 0.115702180856172852            , 0.0529428148329764663           , 0.0323446977320674099           , 0.0227694002219647944           , 0.0173973296902676144           , 0.0140088358390827667           , 0.0116948956678658188           , 0.0100220379453436476           , 0.00875984045855732916          , 0.00777542136899414055          , 0.00698714137806606493          , 0.00634224211472670036          , 0.00580519240788870427          , 0.00535122794409558085          , 0.00496258178553978818          , 0.00462618802878018543          , 0.0043322304282833568           , 0.00407319543832619899          , 0.00384323699536416771          , 0.00363773989564746218          , 0.00345301312123331438          , 0.00328607024410495657          , 0.00313446943702758845          , 0.00299619507592099136          , 0.00286956887087897119          , 0.00275318229455370964          , 0.0026458445936834798           , 0.00254654235399467429          , 0.00245440773527093567          , 0.00236869328609312813          , 0.002288751803767031            , },
-/* x = 2.1         */  {0.586833205308846941            , 0.110565899299015484            , 0.049819349915253462            , 0.0301524574579250952           , 0.0210978033220223229           , 0.0160532861060045229           , 0.0128880283126352003           , 0.010735223764589451            , 0.00918379243234758436          , 0.00801620073736357711          , 0.0071074727992681083           , 0.00638107155515437242          , 0.00578767083704015607          , 0.00529412920786237896          , 0.00487739532364340994          , 0.00452096098397070907          , 0.00421270529764525501          , 0.00394353489745512026          , 0.0037064983709398331           , 0.00349619320756950347          , 0.00330835877195922029          , 0.00313959080889193374          , 0.0029871372688979144           , 0.00284874972557719942          , 0.00272257353551106255          , 0.00260706547310956068          , 0.00250093116085849635          , 0.00240307696964723719          , 0.00231257263752765124          , 0.00222862192526052624          , 0.00215053936604503291          , 0.00207773168470597557          , },
-/* x = 2.2         */  {0.576020773306374634            , 0.105731276123645625            , 0.04690697045650068             , 0.0281208395273112537           , 0.0195551632565556575           , 0.0148166615787879623           , 0.0118591179555303867           , 0.00985576705899116907          , 0.00841666989148492109          , 0.0073364158620249489           , 0.00649744159457730586          , 0.00582798070995216813          , 0.00528190862876499629          , 0.00482830849017977816          , 0.00444572065284548343          , 0.00411880467504207637          , 0.00383631512817511006          , 0.00358982746987380654          , 0.0033729097916475785           , 0.00318056907468784571          , 0.0030088717160209317           , 0.00285467772602825372          , 0.00271545087656386973          , 0.00258912070069096692          , 0.0024739805841230822           , 0.00236861142265844198          , 0.00227182368028333125          , 0.00218261288470060743          , 0.00210012506731807399          , 0.0020236296533628032           , 0.00195249799683443304          , 0.00188618623740148454          , },
-/* x = 2.3         */  {0.565677574001107307            , 0.101177984843109472            , 0.044190241479679279            , 0.0262374703642592742           , 0.0181311845276111274           , 0.0136786558751513941           , 0.0109144284573612176           , 0.00904972309193306422          , 0.00771456579482439774          , 0.00671495104113283215          , 0.00594026653450436458          , 0.00532320728299737443          , 0.00482063560568171264          , 0.00440370574331284399          , 0.00405243724927022915          , 0.00375257315348541557          , 0.00349367913809655414          , 0.00326794952921359847          , 0.00306943256514613321          , 0.00289351330165286851          , 0.00273655979166481267          , 0.00259567559466382299          , 0.00246852322776970759          , 0.00235319598409415385          , 0.00224812337600467333          , 0.00215200036987505643          , 0.00206373372626611827          , 0.00198240081941315974          , 0.00190721768367827218          , 0.00183751396670821311          , 0.00177271311151757381          , 0.00171231653908005845          , },
-/* x = 2.4         */  {0.555776428234162854            , 0.096887182280156323            , 0.0416549153231367637           , 0.0244909631929731906           , 0.0168164143877916315           , 0.0126312033751483708           , 0.0100469341327540782           , 0.00831087300758135687          , 0.007071904546730802            , 0.00614675500104398556          , 0.00543133161050483796          , 0.00486250219399772788          , 0.00439991607761150789          , 0.00401665596893233204          , 0.00369411622328342953          , 0.00341904524704311523          , 0.00318176028519251431          , 0.00297502835873759771          , 0.00279334151383404507          , 0.0026324339005098259           , 0.00248895183968139724          , 0.00236022336198432993          , 0.00224409401581535071          , 0.00213880779630797471          , 0.00204291940355464751          , 0.00195522864265942179          , 0.00187473072629541833          , 0.00180057816755097257          , 0.00173205123456062244          , 0.00166853480844645332          , 0.00160950008519338382          , 0.00155448998070498114          , },
-/* x = 2.5         */  {0.546291971785147992            , 0.0928413946322498393           , 0.0392878370545701446           , 0.0228708373297903855           , 0.0156021725369267807           , 0.0116669108416884462           , 0.00925020412693482264          , 0.00763353100525077982          , 0.00648359329097258044          , 0.00562721746452701445          , 0.00496642664042289586          , 0.00444199216499640357          , 0.0040161642342036974           , 0.00366382144623872798          , 0.00336763608490937204          , 0.00311528956769459881          , 0.00289779559492675356          , 0.00270845120173681446          , 0.00254215868737794218          , 0.00239497456181701306          , 0.00226380185739294287          , 0.00214617550584237252          , 0.00204010962546464465          , 0.00194398690440204278          , 0.00185647717659944311          , 0.00177647660589478346          , 0.0017030616553470323           , 0.00163545382189878335          , 0.00157299231610685781          , 0.00151511267883842001          , 0.00146132988551359714          , 0.00141122487848612608          , },
-/* x = 2.6         */  {0.537200523750481533            , 0.0890244126031053179           , 0.0370768576144196295           , 0.0213674442034162052           , 0.0144804867710729915           , 0.0107790005241005852           , 0.00851835145207164547          , 0.00701249820434567512          , 0.00594497977900985508          , 0.00515213039016031843          , 0.00454171138436772497          , 0.00405814631872852766          , 0.00366611290700427997          , 0.00334216239630252283          , 0.00307015509342966079          , 0.00283863836444736201          , 0.00263927136221814265          , 0.00246584168055092826          , 0.00231363088556704015          , 0.00217899318300896253          , 0.00205906844673378043          , 0.00195158232725983024          , 0.00185470420343054228          , 0.00176694441154625426          , 0.00168707867852693648          , 0.00161409173720884754          , 0.0015471346890994893           , 0.0014854923669113562           , 0.00142855807034436738          , 0.00137581380678751154          , 0.00132681468964025011          , 0.00128117651033103386          , },
-/* x = 2.7         */  {0.5284799649863474              , 0.0854211948604810435           , 0.0350107540447580306           , 0.0199718995340815533           , 0.0134440340738557608           , 0.00996125813425038551          , 0.00784598643277860658          , 0.00644302053451335563          , 0.00545181394036121655          , 0.00471765263822054004          , 0.00415368284934083254          , 0.00370774575859402189          , 0.00334678513109495155          , 0.00304891028474518956          , 0.00279908610155006535          , 0.00258666374170409813          , 0.00240390060242171797          , 0.00224503835929017184          , 0.00210570922877893502          , 0.00198254235649459827          , 0.00187289614139621618          , 0.00177467204768427744          , 0.00168618246493966018          , 0.00160605521898795239          , 0.00153316343568222174          , 0.00146657326086650004          , 0.00140550436378550684          , 0.00134929972979298097          , 0.00129740229608596077          , 0.00124933669206481457          , 0.00120469483186561009          , 0.00116312444519489824          , },
-/* x = 2.8         */  {0.52010962581807524             , 0.0820177791415816563           , 0.0330791562142012507           , 0.0186760211510336229           , 0.0124860866842888206           , 0.00920798527381811086          , 0.0072281741762109383           , 0.00592075029741504159          , 0.00500021282785851051          , 0.00432027775863869886          , 0.00379914549802094882          , 0.00338785586307535005          , 0.00305546825455626538          , 0.00278154352476583383          , 0.00255207366847491934          , 0.00235715602867048141          , 0.00218960254706552837          , 0.00204407525499008413          , 0.00191653058918481778          , 0.00180385163832505233          , 0.00170359844097483495          , 0.00161383454549111931          , 0.00153300407694645807          , 0.00145984300667368718          , 0.00139331405150809507          , 0.00133255819619262387          , 0.00127685810367961648          , 0.00122561015532173366          , 0.00117830284240667614          , 0.00113449989142188842          , 0.00109382695869168783          , 0.00105596104553124871          , },
-/* x = 2.9         */  {0.512070182282748204            , 0.0788012003838518923           , 0.0312724794991635255           , 0.0174722719723121377           , 0.0116004627154789198           , 0.00851395592808673254          , 0.00666039571595634981          , 0.00544171107776298596          , 0.00458662863966164833          , 0.00395680462376565389          , 0.00347518410261037843          , 0.00309580105145012381          , 0.00278969036671476182          , 0.00253776536404514075          , 0.00232697323669165021          , 0.00214810410476734952          , 0.00199448399851389759          , 0.0018611641197502399           , 0.00174440071290537369          , 0.00164131143467096507          , 0.00154964239582076015          , 0.00146760658142136844          , 0.00139376947322614032          , 0.00132696659289122165          , 0.00126624307060003249          , 0.00121080869017144192          , 0.00116000399005798433          , 0.0011132743821837828           , 0.00107015016615531469          , 0.0010302309335251221           , 0.000993173279581892261         , 0.000958681034153137745         , },
-/* x = 3.0         */  {0.504343560231438807            , 0.0757594153105958107           , 0.0295818629273205815           , 0.0163537077114564941           , 0.0107814809353885859           , 0.00787437667510555509          , 0.00613851250971619383          , 0.00500226570974109614          , 0.00420781954637541653          , 0.00362431065341968967          , 0.00317913900785169345          , 0.00282914179950360326          , 0.00254719883678648866          , 0.00231548375863304557          , 0.00212183218587138124          , 0.00195767750373435218          , 0.00181682237465016242          , 0.00169467833259856947          , 0.00158777887884766473          , 0.00149345835824994201          , 0.00140963460064729926          , 0.0013346583764458878           , 0.0012672069698848721           , 0.00120620754615921691          , 0.00115078105026987534          , 0.00110020051589332474          , 0.0010538596571159365           , 0.00101124890988011527          , 0.000971936945923732771         , 0.000935556258298137493         , 0.000901791811954361516         , 0.000870372026892018253         , },
-/* x = 3.1         */  {0.496912846672130588            , 0.0728812329481569003           , 0.0279991123307924024           , 0.0153139289129684203           , 0.0100239193543905058           , 0.00728485028967044298          , 0.00565873399884146237          , 0.00459908703086793625          , 0.00386082307571955447          , 0.00332012740220558385          , 0.00290858358844327211          , 0.00258565370383079164          , 0.00232594077331458091          , 0.00211279305472688977          , 0.00193487259420455127          , 0.00178421013522164204          , 0.00165505029005049953          , 0.00154313825453365781          , 0.00144526395405164797          , 0.00135896192037954337          , 0.00128230846794264278          , 0.00121378141807912065          , 0.00115216106191038414          , 0.00109645893425959359          , 0.0010458657284908214           , 0.000999712629434264919         , 0.000957442210901565287         , 0.000918586255520186154         , 0.000882748654847166514         , 0.000849592085924304069         , 0.000818827528383247421         , 0.000790205941583917196         , },
-/* x = 3.2         */  {0.489762207784512201            , 0.0701562505947103103           , 0.0265166480946507368           , 0.014347036952326167            , 0.00932297729498702405          , 0.00674134244945578145          , 0.00521758796338240326          , 0.00422913117900078549          , 0.00354293182916336988          , 0.00304181829959548012          , 0.00266130370530436049          , 0.00236330841141021174          , 0.00212404523188572731          , 0.0019279573154339012           , 0.00176447555286704958          , 0.00162618547730909729          , 0.00150774153409621888          , 0.00140519791356390746          , 0.00131558171818289778          , 0.00123661243662515664          , 0.00116651266406482718          , 0.001103877382545578            , 0.00104758179235838105          , 0.000996715105900145608         , 0.000950532187334473186         , 0.000908417687659839213         , 0.000869859076919622611         , 0.000834426109120903629         , 0.000801755003638044443         , 0.000771536129531612205         , 0.000743504322499828894         , 0.000717431202206773026         , },
-/* x = 3.3         */  {0.482876813083812836            , 0.0675747948003898229           , 0.0251274571212014338           , 0.0134475936673889642           , 0.00867424064704283998          , 0.00624015127608265975          , 0.00481189342964685634          , 0.00388961320972259499          , 0.00325167132493923022          , 0.00278715835192831943          , 0.00243527898263607027          , 0.00216025624759355609          , 0.0019398070141533007           , 0.0017593951443321988           , 0.00160916689329232758          , 0.00148222310670265067          , 0.00137359831917305537          , 0.00127963289870770026          , 0.00119757334144386421          , 0.00112531003517923795          , 0.00106120060162882946          , 0.00100394807053666702          , 0.000952515095732829752         , 0.000906062410111717179         , 0.000863903920304651813         , 0.000825473438437565664         , 0.000790299690769067183         , 0.000757987304472811405         , 0.000728202173449185127         , 0.00070066007353993133          , 0.000675117717820597427         , 0.000651365664517642058         , },
-/* x = 3.4         */  {0.476242765253032195            , 0.0651278669548097229           , 0.0238250486623681014           , 0.0126105843163991805           , 0.00807365003742179176          , 0.005777879467127948            , 0.00443873590854137478          , 0.00357798483098702833          , 0.00298477978007049199          , 0.00255411563248121828          , 0.0022286657436495688           , 0.00197481039063453903          , 0.00177167191533357619          , 0.00160566587103137138          , 0.00146760419963543348          , 0.00135106644545610168          , 0.00125143968364898125          , 0.00116532935295445612          , 0.00109018491074704188          , 0.00102405466725212798          , 0.000965420891545134073         , 0.000913086263680061401         , 0.000866094026164200114         , 0.000823670767215136127         , 0.000785184720409605662         , 0.000750114902903617345         , 0.000718027954082118397         , 0.000688560530297969939         , 0.00066140576559739223          , 0.000636302746871364353         , 0.000613028250747708433         , 0.000591390196365313957         , },
-/* x = 3.5         */  {0.469847035201623517            , 0.062807093111329288            , 0.0226034137016670519           , 0.0118313835837166798           , 0.00751747166624260828          , 0.00535140879626642483          , 0.00409544476237316748          , 0.00329191406979038236          , 0.00274018966064817637          , 0.00234083440124292823          , 0.00203978145732816222          , 0.00180543245451041514          , 0.00161822329020300678          , 0.00146545697610809552          , 0.00133856499037143976          , 0.00123157161406475035          , 0.00114019094481268001          , 0.00106127396521427707          , 0.000992457908597313801         , 0.000931937027968872844         , 0.00087830866692393431          , 0.000830467417366115141         , 0.000787530789203492902         , 0.000748786013119811408         , 0.000713651313473233632         , 0.000681647276838563892         , 0.000652375385206893965         , 0.000625501713378125633         , 0.000600744401925487011         , 0.000577863926776322698         , 0.000556655465354934066         , 0.000536942852047496751         , },
-/* x = 3.6         */  {0.463677401944206322            , 0.060604677707904689            , 0.0214569875939474314           , 0.011105724378117305            , 0.00700227058326785757          , 0.0049578767780719663           , 0.00377957251548598174          , 0.00302926670194794469          , 0.00251601084471202911          , 0.00214561971011276863          , 0.00186709056178472822          , 0.00165071935419260163          , 0.00147816981932462176          , 0.00133757264386430324          , 0.00122093596347828147          , 0.00112269729077466693          , 0.00103887410648918249          , 0.000966544870395897425         , 0.000903520557856090148         , 0.000848130304636496484         , 0.000799077699101500287         , 0.000755342113315132077         , 0.000716109503508072014         , 0.000680722945912594421         , 0.000648646668138802359         , 0.000619439484931771498         , 0.000592734900587192445         , 0.0005682260116428665           , 0.000545653915703485656         , 0.000524798714973072443         , 0.000505472463349821294         , 0.000487513585700908073         , },
-/* x = 3.7         */  {0.457722396925483523            , 0.0585133608723167745           , 0.0203806156954879638           , 0.0104296691901487065           , 0.00652488619739210191          , 0.00459465531164723324          , 0.00348887594024056412          , 0.0027880892909172895           , 0.00231051525586756099          , 0.00196692336208231699          , 0.00170919154178711237          , 0.00150939133880945521          , 0.00135033436787541605          , 0.00122092334142513648          , 0.00111370320920801266          , 0.00102349548603959135          , 0.000946599134714586574         , 0.000880303375032698072         , 0.000822579953487167744         , 0.000771882676849434506         , 0.000727013233349804664         , 0.000687029202297648653         , 0.000651179625467500121         , 0.000618859010229474895         , 0.000589573920330530929         , 0.000562918327818462746         , 0.000538555168703001194         , 0.000516202360935090818         , 0.00049562207852575727          , 0.00047661243319307746          , 0.000459000957844889048         , 0.000442639453810654149         , },
-/* x = 3.8         */  {0.451971252447459716            , 0.056526379025170279            , 0.0193695217393875317           , 0.00979958379483842933          , 0.00608240982996097494          , 0.00425933113335304982          , 0.00322129876456815162          , 0.00256659369516057569          , 0.00212212283832145257          , 0.00180333110464461816          , 0.00156480514895817753          , 0.00138028108841528056          , 0.00123364383912971805          , 0.00111451633185228361          , 0.00101594330313763969          , 0.000933103149319204621         , 0.000862556022727598351         , 0.000801786433400677604         , 0.000748914909586594785         , 0.000702510499807685694         , 0.000661465478465019247         , 0.000624909573802657019         , 0.000592149975966928427         , 0.000562628560835024134         , 0.000535890855668491912         , 0.000511563167314540516         , 0.000489335483799469809         , 0.000468948524369250539         , 0.000450183813703050506         , 0.000432855990119510928         , 0.000416806784327045918         , 0.000401900261550553322         , },
-/* x = 3.9         */  {0.446413853882527473            , 0.0546374285175286006           , 0.0184192787316386427           , 0.00921211310415241348          , 0.00567216413887980845          , 0.00394968792360434456          , 0.00297495586074915406          , 0.00236314291588905311          , 0.00194938875545274464          , 0.00165355094831952184          , 0.00143276366311109315          , 0.00126232377942673945          , 0.00112711993346289984          , 0.00101744703727796252          , 0.000926815200089820444         , 0.000850734532923128769         , 0.000786007573693923507         , 0.000730299805909626573         , 0.000681869456542633537         , 0.000639392108496545179         , 0.000601843690456522246         , 0.000568420495245259436         , 0.000538483314069457345         , 0.000511517652220665649         , 0.000487104898534217565         , 0.000464901100304137465         , 0.000444621111500849005         , 0.000426026597915462668         , 0.000408916851223853627         , 0.000393121676148111317         , 0.000378495826530022975         , 0.000364914611862437561         , },
-/* x = 4.0         */  {0.44104069538121084             , 0.0528406320615595825           , 0.0175257821619930709           , 0.00866415899015389677          , 0.00529168425529288713          , 0.00366368992611272549          , 0.00274811878731322501          , 0.00217623816829221811          , 0.00179099170445613641          , 0.00151640251087751734          , 0.00131200110224233115          , 0.00115454803229434674          , 0.00102987073175447435          , 0.000928891175640959799         , 0.000845552856696466786         , 0.000775674244432919562         , 0.000716282836085790765         , 0.000665211837762114368         , 0.000620846929117477821         , 0.000581962186076562388         , 0.000547610796031469103         , 0.000517050468569506615         , 0.000489691407469325521         , 0.000465059305923183517         , 0.000442768561206930625         , 0.000422502576300677542         , 0.000403999062825046796         , 0.000387038930124162488         , 0.000371437783511844566         , 0.000357039346430119994         , 0.000343710318830362417         , 0.000331336319989740891         , },
-/* x = 4.1         */  {0.435842838806517484            , 0.0511305077322873459           , 0.01668522534086595             , 0.00815285991494737835          , 0.00493870048815492694          , 0.00339946695019915792          , 0.00253920256712554751          , 0.00200450706961839879          , 0.00164572324908716272          , 0.001390807296673234            , 0.00120154429695490224          , 0.00105606766271849994          , 0.00094108302936149403          , 0.000848097601497085756         , 0.000771458516909764375         , 0.000707270925441697479         , 0.000652771132552606622         , 0.000605947801521313533         , 0.000565304591644478795         , 0.000529706645010300959         , 0.000498278506541523156         , 0.000470334556883073395         , 0.000445330554172062008         , 0.000422829211705066195         , 0.000402475310777666294         , 0.000383977417846878154         , 0.000367094257125553455         , 0.000351624417791839704         , 0.00033739848497438246          , 0.000324272956314457646         , 0.000312125490340457753         , 0.000300851159634960417         , },
-/* x = 4.2         */  {0.430811875648124345            , 0.0495019403366245999           , 0.0158940766892138206           , 0.00767557221733230917          , 0.00461112246438672118          , 0.00315530063797652196          , 0.00234675359491238516          , 0.00184669284683134534          , 0.00151247808118958022          , 0.00127577982854109018          , 0.0011005047525955961           , 0.000966074164765453788         , 0.000860015353467587013         , 0.000774381787644282037         , 0.00070389660070451295          , 0.000644931499994424922         , 0.00059491662849398409          , 0.000551984752359972473         , 0.000514748751443015517         , 0.000482157974156412847         , 0.000453402877574094623         , 0.000427850138102401588         , 0.000404997514038757391         , 0.000384441822769806712         , 0.000365855815440858244         , 0.00034897120668146997          , 0.000333566038128245506         , 0.000319455142895155432         , 0.000306482861756647925         , 0.000294517416625145894         , 0.00028344651909594066          , 0.000273173910044604054         , },
-/* x = 4.3         */  {0.425939891689163391            , 0.0479501549624374953           , 0.01514905882268739             , 0.00722985291874837423          , 0.00430702458360903347          , 0.00292961188840469412          , 0.00216943857677333763          , 0.00170164447509912295          , 0.00139024512956812937          , 0.00117041955702991482          , 0.00100807122922877324          , 0.000883829860651547246         , 0.000785991602649378476         , 0.000707119890003898854         , 0.000642288141616783408         , 0.00058811594124253338          , 0.000542213391432279421         , 0.000502846849426080132         , 0.000468730316013008472         , 0.000438891009334928105         , 0.000412580273472240041         , 0.000389213046530338362         , 0.000368325812628327655         , 0.000349546808845792174         , 0.000332574535296662839         , 0.00031716200201576132          , 0.000303105010535220414         , 0.000290233319321598858         , 0.000278403901219419236         , 0.000267495739221623804         , 0.00025740576765986892          , 0.000248045676168729341         , },
-/* x = 4.4         */  {0.42121943421632775             , 0.0464706925355976487           , 0.0144471292845141483           , 0.00681344392267071594          , 0.00402463267677574664          , 0.00272094933953559983          , 0.00200603441270717693          , 0.00156830766615055215          , 0.00127809944195339103          , 0.00107390347842490981          , 0.000923502975796005148         , 0.000808661657800871243         , 0.000718395252994499705         , 0.000645743343385687663         , 0.000586105723675582469         , 0.000536332509491301186         , 0.00049420089672294268          , 0.000458101100998712188         , 0.000426840753623464249         , 0.000399519088749970003         , 0.000375443699793226014         , 0.000354074066869752888         , 0.000334982383219424205         , 0.000317825834296096367         , 0.000302326626005464553         , 0.000288257360363559311         , 0.000275430167667395871         , 0.000263688520829947727         , 0.000252900993474850434         , 0.000242956446022503813         , 0.000233760274120373157         , 0.000225231456622081974         , },
-/* x = 4.5         */  {0.416643481580515841            , 0.0450593872269192816           , 0.0137854627936128376           , 0.00642425749220243128          , 0.00376231176746385694          , 0.00252797881877026733          , 0.0018554189409145149           , 0.00144571663262737636          , 0.00117519477235203765          , 0.000985479399082481515         , 0.000846123560480538031         , 0.000739955359094332462         , 0.000656664080103037793         , 0.00058973394048151537          , 0.000534868872750956498         , 0.000489133419059492439         , 0.000450459939177995457         , 0.000417353494959060397         , 0.000388708420591645267         , 0.000363690558183174264         , 0.000341659470100165535         , 0.000322115748429386713         , 0.000304664516024591353         , 0.000288989631429367153         , 0.000274835126548661077         , 0.000261991629182454032         , 0.000250286283340316572         , 0.00023957516431049687          , 0.000229737499870557931         , 0.000220671217153277287         , 0.000212289474866783714         , 0.00020451793651461112          , },
-/* x = 4.6         */  {0.412205414930392648            , 0.0437123455636694637           , 0.0131614348854755228           , 0.00606036290029826437          , 0.00351855484320155097          , 0.00234947367871525838          , 0.00171656246969937615          , 0.00133298656102807699          , 0.00108075681204212751          , 0.000904459789139411534         , 0.00077531524445817799          , 0.000677150477063930015         , 0.000600285350851827033         , 0.000538619350724140672         , 0.000488139861404153967         , 0.000446110895226835153         , 0.000410608913847642184         , 0.000380245479602022873         , 0.000353995221895349882         , 0.000331085594075474346         , 0.000310924176555425852         , 0.000293049510232486769         , 0.000277097086452537983         , 0.000262775341927242128         , 0.000249848404994217214         , 0.000238123489139463245         , 0.000227441543639026506         , 0.000217670224808132956         , 0.000208698545631927277         , 0.000200432756128942732         , 0.000192793137714569518         , 0.000185711484342952059         , },
-/* x = 4.7         */  {0.407898991955183335            , 0.0424259271120731402           , 0.0125726068334599578           , 0.00571997415591531617          , 0.00329197255209695703          , 0.00218430594331668044          , 0.00158852002923273061          , 0.0012293067317372001           , 0.000994077007910870675         , 0.000830216173700955785         , 0.000710513850917270512         , 0.00061973550718796422          , 0.000548791442939080847         , 0.000491969039551191925         , 0.00044551989001982605          , 0.000406893586050972166         , 0.000374300432540885113         , 0.000346450762995041664         , 0.000322393574801132036         , 0.000301413315526177474         , 0.000282961936577138765         , 0.000266613010422007687         , 0.0002520300368564376           , 0.000238944101791901587         , 0.000227137838566335906         , 0.000216433722133472583         , 0.000206685396501200494         , 0.000197771160943383945         , 0.000189589015977691478         , 0.000182052852024744377         , 0.000175089485932351186         , 0.000168636334061447364         , },
-/* x = 4.8         */  {0.403718322485826271            , 0.0411967266080006502           , 0.0120167117473939502           , 0.00540143871749476272          , 0.00308128374723367814          , 0.00203143819542532025          , 0.00147042428131859312          , 0.00113393423001267518          , 0.000914506916788551964         , 0.000762174014206807766         , 0.000651204085511387366         , 0.000567243619449906858         , 0.000501755853992482176         , 0.000449390552165835996         , 0.000406645610360160734         , 0.000371143297023399213         , 0.00034121824569847362          , 0.000315672401982250064         , 0.000293623647954033689         , 0.000274409158883251839         , 0.000257521890356957593         , 0.000242567755793253382         , 0.000229236088551027768         , 0.000217278847476689658         , 0.000206495706498373449         , 0.000196723184312528139         , 0.000187826599054052735         , 0.000179694031337996468         , 0.000172231736934351759         , 0.000165360620441460565         , 0.000159013495523556717         , 0.000153132935199680304         , },
-/* x = 4.9         */  {0.399657845815392672            , 0.0400215574229049318           , 0.011491641754876577            , 0.00510322711259781068          , 0.00288530680788370757          , 0.00188991614286010486          , 0.00136147903066702173          , 0.00104618819670887163          , 0.00084145304894987081          , 0.000699808036859537066         , 0.00059691526830682283          , 0.000519248730971320297         , 0.000458789565450614929         , 0.000410526129116431908         , 0.000371185960736665408         , 0.000338552019432546563         , 0.00031107444198822479          , 0.000287640154559905872         , 0.000267430850884935205         , 0.000249832491001863477         , 0.000234375926341666846         , 0.000220696929498367364         , 0.000208508663010760829         , 0.000197582322914275184         , 0.000187733276127203382         , 0.000178810965235574002         , 0.000170691444498972813         , 0.00016327178444094067          , 0.000156465823808917995         , 0.00015020090675346788          , 0.000144415349747986161         , 0.000139056455479879115         , },
-/* x = 5.0         */  {0.395712309610513542            , 0.0388974362611428075           , 0.0109954361784342955           , 0.00482392338930860106          , 0.00270295167260747403          , 0.00175886180543817992          , 0.0012609532860734512           , 0.000965444571986939852         , 0.000774372158071863069         , 0.000642637968813620508         , 0.000547217440837332255         , 0.000475361925849851025         , 0.000419537729546110648         , 0.00037504962395672991          , 0.000338839284774624049         , 0.000308839225937863031         , 0.000283606900498828687         , 0.000262108071737587959         , 0.000243583551173011146         , 0.00022746443943159453          , 0.000213316613874671955         , 0.000200803416977608308         , 0.000189659993095169013         , 0.000179675269019713849         , 0.000170679064484108382         , 0.000162532716063584363         , 0.000155122152015733543         , 0.000148352705774841069         , 0.000142145181853079168         , 0.000136432836654004545         , 0.000131159036350080107         , 0.00012627542182694194          , },
-/* x = 5.1         */  {0.391876750295519059            , 0.0378215689931375905           , 0.0105262706288134446           , 0.00456221633123054775          , 0.00253321252481354884          , 0.001637467270373167            , 0.00116817582437149029          , 0.000891131289344484081         , 0.000712766938691335795         , 0.000590224646297752197         , 0.000501717815111927024         , 0.000435228191356356019         , 0.000383676650556916896         , 0.00034266369592228297          , 0.000309330708273137654         , 0.000281749409255427045         , 0.000258576972686529637         , 0.000238852307170572736         , 0.000221870998573961731         , 0.000207105919776563525         , 0.000194155324095131505         , 0.000182708011998505451         , 0.000172519406903931205         , 0.000163394778937379227         , 0.000155177259268743876         , 0.000147739131240471945         , 0.000140975404681218931         , 0.00013479900809695757          , 0.000129137145080101005         , 0.000123928500397070706         , 0.000119121074305052502         , 0.000114670486969859462         , },
-/* x = 5.2         */  {0.38814647480016237             , 0.0367913375364809228           , 0.0100824469412194227           , 0.00431689137359003279          , 0.00237516107638167857          , 0.00152498896794945526          , 0.00108253021410415726          , 0.000822723881018583838         , 0.000656182095626729342         , 0.000542166462009002538         , 0.000460057534366372673         , 0.000398523442397409011         , 0.000350911034074964887         , 0.000313097252991668247         , 0.000282409750962910601         , 0.000257049842034964904         , 0.000235767373300301885         , 0.00021766912482203748          , 0.000202101437308705709         , 0.000188575842275128733         , 0.000176720521920120015         , 0.000166247786342706559         , 0.000156931768459193231         , 0.000148592803836819518         , 0.000141086284574013937         , 0.00013429456955441447          , 0.000128121021780227459         , 0.000122485551306854126         , 0.000117321240491942742         , 0.000112571758392304217         , 0.000108189358113959267         , 0.000104133310018340662         , },
-/* x = 5.3         */  {0.384517043570234199            , 0.0358042877040871682           , 0.00966238388729729135          , 0.00408682316316756986          , 0.00222794039955309177          , 0.00142074242349694432          , 0.00100345025958077088          , 0.000759741459211302374         , 0.000604200752948992396         , 0.000498096122002137219         , 0.000421908718031168957         , 0.000364951808655125649         , 0.00032097148039223337          , 0.000286103122914680947         , 0.000257848152055298995         , 0.000234528537989948551         , 0.000214980261394168761         , 0.000198373086707297443         , 0.000184100389419357952         , 0.000171709481283587547         , 0.000160856213504688503         , 0.000151274608186982302         , 0.000142756060861322905         , 0.0001351347954574825           , 0.000128277498074666158         , 0.000122075801768719387         , 0.000116440753140987975         , 0.00011129868014737231          , 0.000106588066150496306         , 0.00010225715694981823          , 0.0000982621087857603165        , 0.0000945655404736946316        , },
-/* x = 5.4         */  {0.380984254748136658            , 0.034858117944955925            , 0.00926460860113473214          , 0.00387096870954268451          , 0.00209075926149871515          , 0.00132409744545146003          , 0.000930415829384573369         , 0.000701743040683961649         , 0.000556441172930255256         , 0.000457677684926080682         , 0.000386971765831746757         , 0.00033424316109759388          , 0.000293612200243702895         , 0.000261455931803694852         , 0.000235437890378434539         , 0.000213992396144623485         , 0.000196035494247283338         , 0.000180795404402563164         , 0.000167709093655281738         , 0.000156356992836366326         , 0.000146420535000520255         , 0.000137653795593394672         , 0.000129864098879935455         , 0.000122898472868928473         , 0.000116634007613608358         , 0.000110970873190198294         , 0.000105827184267356017         , 0.000101135168847888976         , 0.0000968382725945579335        , 0.0000928889440071420583        , 0.0000892469216489549498        , 0.0000858778961086651809        , },
-/* x = 5.5         */  {0.377544129437629076            , 0.0339506689090150008           , 0.00888774866259826686          , 0.00366836107950247884          , 0.0019628869198230259           , 0.00123447371272210601          , 0.00086294903649809992          , 0.000648324185091930179         , 0.000512553757992262336         , 0.000420603858854944793         , 0.000354972898161807642         , 0.000306150856630353954         , 0.000268608933094006723         , 0.000238950171716918281         , 0.000214989381626611508         , 0.000195265511700696976         , 0.000178769038568867205         , 0.000164782439482595525         , 0.00015278308576607058          , 0.000142382066807322224         , 0.000133284469729227248         , 0.000125262892766750017         , 0.000118139359136925793         , 0.00011177270206341761          , 0.000106049596228778241         , 0.000100878070613278804         , 0.0000961827420739229083        , 0.0000919012628594406498        , 0.0000879816380731971586        , 0.0000843801756098337314        , 0.0000810599020469202872        , 0.0000779893260361882294        , },
-/* x = 5.6         */  {0.374192897973535809            , 0.0330799137729511499           , 0.00853052478592593917          , 0.00347810359045953259          , 0.00184364834077980333          , 0.001151336727726366            , 0.000800610740045276354         , 0.000599113920009434087         , 0.000472218311040944687         , 0.000386593533144029362         , 0.000325661911897645272         , 0.000280449681550680348         , 0.000245757049927028321         , 0.000218398440329712249         , 0.000196329836823151778         , 0.000178187638516827745         , 0.000163031524780243684         , 0.000150194339398670602         , 0.000139190907363441095         , 0.000129660701425391936         , 0.000121330682063156669         , 0.000113990557866651127         , 0.000107475917123488181         , 0.000101656478042324762         , 0.0000964277456702083015        , 0.0000917049840497567816        , 0.0000874187919691665213        , 0.0000835118087395441793        , 0.0000799362289457141999        , 0.000076651904769890944         , 0.0000736248807982709713        , 0.000070826251090321288         , },
-/* x = 5.7         */  {0.370926987123262128            , 0.0322439492689290224           , 0.00819174406572945565          , 0.00329936446238386013          , 0.00173241980519436387          , 0.00107419410432263176          , 0.000742997341234883914         , 0.000553771927945808607         , 0.000435141531729461083         , 0.000355389524730663653         , 0.000298810132667661108         , 0.000256933976188562325         , 0.00022486982411102287          , 0.000199629837307394648         , 0.000179301767528805503         , 0.000162612789549481299         , 0.000148686931452863817         , 0.000136903796532739753         , 0.000126812931681984088         , 0.000118080089014222675         , 0.000110452457375737857         , 0.000103735552187191171         , 0.0000977774812787673328        , 0.0000924580000064260711        , 0.0000876807493711186472        , 0.0000833676545362755216        , 0.0000794548178841034064        , 0.0000758894640689655943        , 0.0000726276373966521861        , 0.0000696324450998159512        , 0.0000668727020541989786        , 0.0000643218743714793799        , },
-/* x = 5.8         */  {0.367743008152541549            , 0.0314409873626867012           , 0.00787029373643830077          , 0.00313137189110480079          , 0.00162862487003084403          , 0.00100259216249153289          , 0.000689737848450952331         , 0.000511985972800565996         , 0.000401054728157989241         , 0.000326756520112931237         , 0.00027420854627326541          , 0.000235415924686444729         , 0.000205776855380380519         , 0.000182488503373594674         , 0.000163761624630279436         , 0.000148407962836404215         , 0.0001356113881510962           , 0.00012479491927675516          , 0.000115540295630225503         , 0.000107537602839873178         , 0.000100552738394762            , 0.0000944058214490885556        , 0.0000889565152530166501        , 0.0000840938311215460781        , 0.0000797289066669699073        , 0.0000757898001125612681        , 0.0000722176776176560281        , 0.000068963980031030581         , 0.0000659882893388678628        , 0.0000632567023223839166        , 0.0000607405768659341667        , 0.0000584155554694973637        , },
-/* x = 5.9         */  {0.364637745692975407            , 0.0306693475317124608           , 0.00756513540477703503          , 0.00297340950890820389          , 0.00153173065623636085          , 0.00093611280401346427          , 0.000640491188591503198         , 0.000473469545162811216         , 0.000369711725311338899         , 0.000300479195891897631         , 0.000251666093489634386         , 0.000215723995297792617         , 0.000188322633311937369         , 0.000166832289324581779         , 0.000149578558728418542         , 0.000135451981725065125         , 0.000123692085992258444         , 0.000113762204997979613         , 0.000105273928488213324         , 0.0000979398758725020139        , 0.0000915432491745092634        , 0.0000859176607954669972        , 0.0000809334402912467497        , 0.0000764881351133673307        , 0.0000724997908101606196        , 0.0000689021127906356889        , 0.0000656409265723771949        , 0.000062671549963357805         , 0.000059956816035280512         , 0.0000574655673934423687        , 0.0000551714963936212305        , 0.0000530522424781801551        , },
-/* x = 6.0         */  {0.361608147353658497            , 0.0299274495980826782           , 0.00727529971813180635          , 0.00282481220116605611          , 0.00144124443595800286          , 0.000874370645579638944         , 0.00059494374372580583          , 0.000437959707647426447         , 0.000340886953170419857         , 0.000276360502269231596         , 0.000231008113870753492         , 0.000197701517884955409         , 0.000172365227890634665         , 0.00015253154338329235          , 0.000136633291223544586         , 0.000123634439068036215         , 0.000112826286203563688         , 0.000103709605670936939         , 0.0000959236684847028695        , 0.0000892019631056373123        , 0.0000833436987044580632        , 0.0000781949558513685139        , 0.0000736359104118739728        , 0.0000695719826556641959        , 0.0000659275840124882321        , 0.0000626416199954637458        , 0.0000596642035918577179        , 0.0000569542178085083853        , 0.0000544774835668002305        , 0.000052205365553437893         , 0.0000501136992488731054        , 0.0000481819564595750838        , },
-/* x = 6.1         */  {0.358651314023545994            , 0.0292138070741032944           , 0.00699988143465771154          , 0.00268496225031170125          , 0.0013567104944832874           , 0.00081701038777572001          , 0.00055280709393828833          , 0.0004052151230911431           , 0.00031437369892470033          , 0.000254220095265090422         , 0.000212074925454993077         , 0.000181205386481069847         , 0.000157775095867115083         , 0.000139468006327219231         , 0.000124817086176157111         , 0.000112854736034651946         , 0.000102920417835115397         , 0.000094549677792869315         , 0.0000874074592839855371        , 0.0000812465798378411804        , 0.0000758810569008199642        , 0.0000711684929055586935        , 0.0000669981537256738808        , 0.0000632827211614362427        , 0.0000599524733689918798        , 0.0000569511045569507899        , 0.0000542326731900563782        , 0.0000517593409497693091        , 0.000049499674815697502         , 0.0000474273561482750116        , 0.0000455201879723297715        , 0.0000437593235103535729        , },
-/* x = 6.2         */  {0.355764490815236588            , 0.0285270209821726495           , 0.00673803486372759791          , 0.00255328578083405284          , 0.00127770724431795448          , 0.000763704400206923864         , 0.000513815948869389366         , 0.000375014249919865113         , 0.000289982509072761478         , 0.000233892904672678288         , 0.000194720528426222024         , 0.000166104875859268399         , 0.00014443399261834184          , 0.000127533804771194487         , 0.000114030813913428772         , 0.000103021207031750003         , 0.0000938892565877835269        , 0.0000862028089597679051        , 0.0000796506191367856705        , 0.0000740034090133335036        , 0.000069088896389054216         , 0.000064775331907700685         , 0.0000609603738496286365        , 0.0000575634021723834097        , 0.000054520102081152088         , 0.000051778577877477254         , 0.0000492965189883552894        , 0.0000470391024263787076        , 0.0000449774191254108512        , 0.0000430872785365067866        , 0.0000413482901095295201        , 0.0000397431500310940614        , },
-/* x = 6.3         */  {0.352945058604552237            , 0.0278657741132955024           , 0.0064889696478458413           , 0.00242924948112700791          , 0.00120384457070318639          , 0.000714150504706331009         , 0.000477726251963550339         , 0.000347153690356924411         , 0.000267539728438488837         , 0.000215227825906778047         , 0.000178811421841260006         , 0.000152280562034726452         , 0.000132233980140460443         , 0.000116630533847825733         , 0.000104184098163681585         , 0.0000940503229934808841        , 0.0000856551774419841733        , 0.0000785965141711564201        , 0.0000725851761080609427        , 0.0000674084713467736552        , 0.0000629067940869258513        , 0.0000589582365504010379        , 0.0000554682059236776036        , 0.0000523622610743321697        , 0.0000495810709098972343        , 0.0000470768013933379092        , 0.0000448104836532798843        , 0.0000427500679837243685        , 0.0000408689652441217018        , 0.0000391449398322246174        , 0.0000375592597676464761        , 0.000036096037206153033         , },
-/* x = 6.4         */  {0.350190526123711584            , 0.0272288256914482539           , 0.00625194685946647086          , 0.00231235758001237655          , 0.00113476138960255479          , 0.000668069940097582706         , 0.000444313442804646505         , 0.000321446678381755474         , 0.000246886164261906063         , 0.000198086524943630357         , 0.000164225523496487679         , 0.000139623337519711466         , 0.000121076522639017907         , 0.000106668421312618217         , 0.0000951945392395904179        , 0.0000858659659979834077        , 0.0000781474744346524329        , 0.0000716647955601246708        , 0.0000661492633930022641        , 0.0000614035525286835368        , 0.0000572797871441190185        , 0.0000536651562292925983        , 0.0000504722222410661897        , 0.0000476322443495346905        , 0.000045090485254234059         , 0.0000428028518971511245        , 0.0000407334510609978787        , 0.0000388527838327307089        , 0.0000371363935645511322        , 0.000035563840625428128         , 0.0000341179159161191446        , 0.0000327840310710416659        , },
-/* x = 6.5         */  {0.347498522569044835            , 0.0266150064135436356           , 0.00602627538828102572          , 0.00220214905757135047          , 0.00107012340077091391          , 0.000625205493381588674         , 0.000413370864170761767         , 0.000297721695480179271         , 0.000227875864555778201         , 0.000182342346497742844         , 0.000150851183883041661         , 0.000128033512966638648         , 0.000110871661942701267         , 0.0000975655658146122477        , 0.0000869870064628429416        , 0.0000783987688034517583        , 0.0000713017415330332354        , 0.0000653475598163480246        , 0.0000602865692765083395        , 0.0000559356823271720089        , 0.0000521578782909335307        , 0.000048848755150054024         , 0.0000459274829595961988        , 0.0000433305800157120384        , 0.0000410075436739148737        , 0.0000389177266957120281        , 0.0000370280668079800759        , 0.0000353114113727208905        , 0.0000337452640401597333        , 0.0000323108351778101806        , 0.000030992314039479093         , 0.0000297763048792809403        , },
-/* x = 6.6         */  {0.344866790687104269            , 0.0260232138370876042           , 0.00581130859649355448          , 0.00209819507158483932          , 0.00100962101996560468          , 0.00058531978349564763          , 0.000384708301583653827         , 0.000275821203260576238         , 0.00021037500086066289          , 0.000167879316445710281         , 0.000138586285978833479         , 0.000117419997576334064         , 0.000101537265659681065         , 0.0000892472427230403942        , 0.0000794929936344088808        , 0.0000715855134734821309        , 0.0000650593091007615637        , 0.0000595900880891847109        , 0.0000549458367858766261        , 0.0000509566608734501325        , 0.0000474955860997471025        , 0.0000444659842834649837        , 0.0000417931277758409758        , 0.0000394183873003750374        , 0.0000372951640583131319        , 0.0000353859849476856095        , 0.0000336603935442479295        , 0.0000320933954770641551        , 0.0000306642964917147812        , 0.0000293558229151400841        , 0.0000281534480640432989        , 0.0000270448707847536225        , },
-/* x = 6.7         */  {0.342293180305705876            , 0.0254524080897785369           , 0.00560644122139269624          , 0.00200009658240970149          , 0.000952967475686151438         , 0.000548193684962826997         , 0.000358150644172956401         , 0.000255600482953354629         , 0.000194260846390062556         , 0.000154591230295341961         , 0.000127337423353583289         , 0.000107699551324758797         , 0.0000929983416265650108        , 0.0000816452714918391108        , 0.0000726500319109085678        , 0.0000653685837867811404        , 0.0000593667309490100125        , 0.000054342553630138002         , 0.0000500804085359215587        , 0.0000464226278474340661        , 0.0000432515360728692084        , 0.0000404776922622504747        , 0.0000380320048211409873        , 0.0000358603219610345704        , 0.0000339196439921748973        , 0.0000321754218614245359        , 0.0000305995979297888168        , 0.0000291691632541288138        , 0.0000278650803211644459        , 0.0000266714683308128532        , 0.0000255749797645132206        , 0.0000245643181314794978        , },
-/* x = 6.8         */  {0.339775642278912               , 0.0249016078772843527           , 0.00541110650617707758          , 0.00190748216051769006          , 0.00089989705704257554          , 0.000513624879818998293         , 0.000333536656629718981         , 0.000236926572672172329         , 0.000179420841341013372         , 0.000142380820217090018         , 0.000117019149726463769         , 0.0000987961026772747113        , 0.000085186412774449653         , 0.0000746974390820910476        , 0.0000664011549537981769        , 0.0000596954666040694155        , 0.0000541753174177462355        , 0.0000495595828632957863        , 0.000045647812674305106         , 0.0000422936706694474885        , 0.0000393880888429153656        , 0.0000368482716702005081        , 0.0000346103333804278509        , 0.0000326242539907683978        , 0.00003085035218539056          , 0.00002925677273818635          , 0.0000278176663090221156        , 0.0000265118504803947828        , 0.0000253218109247727924        , 0.0000242329466814151535        , 0.0000232329931146096307        , 0.0000223115758931164995        , },
-/* x = 6.9         */  {0.337312222817248617            , 0.0243698867672608773           , 0.00522477354150247254          , 0.0018200059622075255           , 0.000850163500464070127         , 0.000481426527183197129         , 0.000310717852896134613         , 0.000219677294101539073         , 0.000165751737860476473         , 0.000131158993810115166         , 0.000107553293720556332         , 0.0000906401260205197257        , 0.0000780389470596697776        , 0.0000683469744524082375        , 0.0000606944116787327283        , 0.0000545182977996187218        , 0.0000494407103434543198        , 0.000045199855962716072         , 0.0000416093862062718665        , 0.0000385334681582281376        , 0.0000358710021103178699        , 0.0000335453374981537611        , 0.0000314973973458044177        , 0.0000296809747472962344        , 0.0000280594481213342215        , 0.000026603444122961311         , 0.0000252891464653997173        , 0.000024097053160701033         , 0.0000230110503471047866        , 0.0000220177130968450777        , 0.0000211057712800977408        , 0.000020265697031699379         , },
-/* x = 7.0         */  {0.334901058176559283            , 0.0238563697293574833           , 0.00504694480160842384          , 0.00173734586017768593          , 0.000803538503977806093         , 0.000451426040731838473         , 0.000289557463035407643         , 0.000203740360993270225         , 0.000153158817810324083         , 0.000120844138372928086         , 0.0000988683331093655305        , 0.0000831680735530114238        , 0.0000714988375831961814        , 0.0000625420695732420234        , 0.000055482422351644173         , 0.0000497934487602260579        , 0.000045122496143749399         , 0.0000412257433706581399        , 0.0000379299323156084776        , 0.0000351089664373569618        , 0.0000326691232501718072        , 0.000030539434835894849         , 0.0000286652665992115929        , 0.000027003930815000391         , 0.0000255216273393215835        , 0.0000241912695765886703        , 0.0000229909130608218555        , 0.0000219026019049315809        , 0.0000209115099440514815        , 0.0000200052929468870169        , 0.0000191735941651298419        , 0.0000184076627513145821        , },
-/* x = 7.1         */  {0.332540369680844635            , 0.0233602299125055444           , 0.00487715386015850205          , 0.00165920171672722577          , 0.000759810358720047615         , 0.000423463965155952413         , 0.00026992948545419523          , 0.000189012562509762938         , 0.000141555177069052099         , 0.000111361484993519818         , 0.000090898823352885371         , 0.000076321856841175248         , 0.0000655139284564173545        , 0.0000572354428270795487        , 0.0000507219741595241933        , 0.0000454811498141054462        , 0.0000411838535895327157        , 0.0000376029750132869963        , 0.0000345774086055732816        , 0.0000319900841648103626        , 0.0000297541098001197093        , 0.0000278037731365495643        , 0.0000260885437750511968        , 0.0000245689821557323653        , 0.0000232138900037687957        , 0.0000219982878111807548        , 0.0000209019545848108608        , 0.0000199083570231740388        , 0.0000190038530287794269        , 0.000018177091505248103         , 0.000017418554615755902         , 0.0000167202048095215319        , },
-/* x = 7.2         */  {0.330228459056234436            , 0.0228806856422123442           , 0.00471496327210141343          , 0.00158529378834238804          , 0.000718782688195835896         , 0.000397392943429572479         , 0.000251717817315876243         , 0.00017539901505067443          , 0.000130861070651627575         , 0.000102642527270902042         , 0.0000835848756785041275        , 0.0000700483736716602299        , 0.0000600365823660767999        , 0.0000523839410260583771        , 0.0000463736527310345009        , 0.0000415451472793973027        , 0.0000375912331447664593        , 0.0000343003392639315131        , 0.0000315226434625641383        , 0.0000291494444262634548        , 0.0000271001752949719006        , 0.0000253139846331367055        , 0.0000237441340866804838        , 0.0000223541823280515557        , 0.0000211153306278988715        , 0.000020004541138219815         , 0.0000190031798383702219        , 0.0000180960224345098883        , 0.0000172705156612058671        , 0.0000165162211327816013        , 0.0000158243915595441047        , 0.0000151876442191327095        , },
-/* x = 7.3         */  {0.327963704054900268            , 0.0224169976218977002           , 0.00455996260893830524          , 0.00151536125133545767          , 0.00068027328658591503          , 0.000373076767402698016         , 0.000234815456591495475         , 0.000162812476746273763         , 0.000121003313424675493         , 0.0000946244899332629555        , 0.0000768716803793254738        , 0.0000642990762172596378        , 0.0000550232861508991391        , 0.000047948176614974948         , 0.0000424015063979780382        , 0.0000379523911196930732        , 0.000034314065035386372         , 0.0000312894089708154822        , 0.000028739077998951893         , 0.0000265621308744777947        , 0.0000246838581445746409        , 0.0000230479047077887697        , 0.0000216110361124022507        , 0.0000203395787578258249        , 0.0000192069470153403788        , 0.0000181918923669749537        , 0.0000172772421590327672        , 0.0000164489766599241388        , 0.000015695543911094753         , 0.0000150073443656545675        , 0.0000143763385191626881        , 0.0000137957448270602558        , },
-/* x = 7.4         */  {0.325744554349251862            , 0.0219684663235217763           , 0.00441176663577268624          , 0.00144916083903607153          , 0.000644113048116414065         , 0.000350389504859334732         , 0.000219123769751561452         , 0.000151172719300049076         , 0.000111914731646700242         , 0.0000872498430313737539        , 0.0000707090713828735654        , 0.0000590295768858629945        , 0.0000504342910300862377        , 0.0000438921969339583369        , 0.0000387727402761690905        , 0.0000346727504648196668        , 0.0000313244934648538592        , 0.0000285442921088246486        , 0.000026202531262114199         , 0.0000242054659168008653        , 0.0000224838114611933237        , 0.0000209853722148211971        , 0.0000196701516289012783        , 0.0000185070312277692544        , 0.0000174714666605123246        , 0.0000165438584618602262        , 0.0000157083797584661473        , 0.00001495211932899549          , 0.0000142644460787283375        , 0.0000136365314431042352        , 0.0000130609860819984675        , 0.0000125315803967793217        , },
-/* x = 7.5         */  {0.32356952767817865             , 0.0215344295538687211           , 0.00427001361943055531          , 0.00138646558180032953          , 0.000610144980163631543         , 0.00032921469675499002          , 0.000204551819610470443         , 0.000140405952319218811         , 0.000103533660976029906         , 0.0000804658577629783211        , 0.0000650511284899169679        , 0.0000541992885426948495        , 0.0000462332844222765304        , 0.0000401831826939386451        , 0.0000354574375059006556        , 0.0000316787545015523619        , 0.0000285971346266859757        , 0.000026041404835520241         , 0.0000238909866063583235        , 0.0000220588089524949591        , 0.0000204806119332979882        , 0.0000191080479411589288        , 0.0000179041127548000236        , 0.0000168400469212111653        , 0.0000158931890099394124        , 0.000015045459422613175         , 0.0000142822706936958894        , 0.0000135917317745365705        , 0.0000129640584967785195        , 0.0000123911309445694686        , 0.0000118661570387843374        , 0.0000113834139478674001        , },
-/* x = 7.6         */  {0.321437206228409496            , 0.0211142601838795319           , 0.00413436375777618323          , 0.00132706364180528325          , 0.000578223293368182374         , 0.000309444618873225702         , 0.000191015748300320528         , 0.000130444295688391853         , 0.0000958034869661359935        , 0.0000742242003278750785        , 0.000059855813999277355         , 0.0000497710960884351158        , 0.0000423870905653550637        , 0.000036791173071925388         , 0.000032428305230353604         , 0.0000289453564631344618        , 0.0000261088563760893171        , 0.0000237592649322589979        , 0.0000217843973150298837        , 0.0000201033728431246711        , 0.0000186565860158718077        , 0.0000173992495532982514        , 0.0000162971248257377708        , 0.0000153236305077361177        , 0.0000144578421330912391        , 0.0000136830809921618436        , 0.0000129859011289239032        , 0.0000123553504205497482        , 0.0000117824236637911483        , 0.000011259652328650313         , 0.0000107807930230103798        , 0.0000103405882212514783        , },
-/* x = 7.7         */  {0.319346233235276195            , 0.020707364029375935            , 0.00400449772111954596          , 0.00127075723524096966          , 0.000548212562584414971         , 0.00029097960262161933          , 0.000178438210776039972         , 0.000121225295922189778         , 0.0000886722244120811436        , 0.0000684805605271806742        , 0.0000550846407227036203        , 0.0000457110566422064265        , 0.0000388653973950617371        , 0.0000336888150642692448        , 0.0000296604431070436722        , 0.0000264497186504850282        , 0.000023838577615470053         , 0.0000216783037937477073        , 0.0000198645097334008244        , 0.000018322056964222951         , 0.0000169956518647985734        , 0.0000158438015305158735        , 0.0000148348235665834741        , 0.0000139441478967181349        , 0.0000131524524843477455        , 0.00001244434992508068          , 0.0000118074456683323131        , 0.0000112316517879750347        , 0.0000107086795747941463        , 0.0000102316592776928103        , 9.79485159071939942e-6          , 9.39342624331729264e-6          , },
-/* x = 7.8         */  {0.317295309788287817            , 0.0203131778723915404           , 0.0038801152973201817           , 0.00121736163510391806          , 0.000519986952996643573         , 0.000273727410127564452         , 0.000166747854642527068         , 0.000112691482780324691         , 0.000082092132225966901         , 0.0000631943121065160646        , 0.0000507023686566678538        , 0.0000419881258211691167        , 0.0000356405073658399344        , 0.0000308511349465520289        , 0.0000271311323446870559        , 0.0000241710166035985841        , 0.0000217670856238313718        , 0.0000197806952952979846        , 0.0000181147023304899201        , 0.0000166992953364320728        , 0.0000154831755859656493        , 0.0000144278987208208277        , 0.0000135041452574044156        , 0.0000126892024104751277        , 0.000011965226558496429         , 0.000011318020665803738         , 0.0000107361586523207646        , 0.0000102103480508470396        , 9.73295921902567103e-6          , 9.2976728528638808e-6           , 8.89921277815270889e-6          , 8.53314105689285472e-6          , },
-/* x = 7.9         */  {0.315283191827960479            , 0.0199311676131329994           , 0.00376093413284429809          , 0.00116670424833939254          , 0.000493429506197256923         , 0.000257602659197229363         , 0.000155878842450027507         , 0.000104789962746282862         , 0.0000760193608060224402        , 0.000058328202104005893         , 0.0000466767278175331387        , 0.0000385739078296903506        , 0.0000326871101027714993        , 0.0000282553298803923486        , 0.0000248196434374370277        , 0.0000220902607105433815        , 0.0000198768697194782564        , 0.000018050200017955322         , 0.0000165198392512245504        , 0.0000152209184706468349        , 0.0000141058404997555814        , 0.0000131389822804361052        , 0.0000122932087088395032        , 0.0000115475222429550171        , 0.0000108854433518859133        , 0.0000102938723913494541        , 9.76227541137555607e-6          , 9.28209217365924667e-6          , 8.84629930963102485e-6          , 8.44908355632152163e-6          , 8.08559426353679759e-6          , 7.75175377320609357e-6          , },
-/* x = 8.0         */  {0.313308687321307169            , 0.0195608265433377911           , 0.00364668856263192884          , 0.00111862376157857077          , 0.000468431481446717723         , 0.000242526294069871729         , 0.000145770412929129824         , 0.000097472046261010992         , 0.000070413629125790815         , 0.0000538480667022457511        , 0.0000429781649650098395        , 0.0000354424272726684244        , 0.0000299820749605538701        , 0.0000258805778819584321        , 0.0000227070609318978642        , 0.000020190133695157889         , 0.0000181519697904614199        , 0.0000164720234489196887        , 0.0000150661370506048291        , 0.0000138740276856166773        , 0.0000128515282397836611        , 0.0000119656268705386417        , 0.0000111912079706656096        , 0.000010508858173590037         , 9.90335664101374363e-6          , 9.36261546919759994e-6          , 8.87692256416035988e-6          , 8.43839174987420219e-6          , 8.04055739628558008e-6          , 7.67807148036038913e-6          , 7.34647433992194497e-6          , 7.04201917704542529e-6          , },
-/* x = 8.1         */  {0.31137065360428081             , 0.0192016737324816015           , 0.00353712852218308258          , 0.00107296935017509545          , 0.000444891747725111201         , 0.000228425098237477417         , 0.000136366477934159563         , 0.000090692905868222695         , 0.0000652379290089181336        , 0.0000497225713007865192        , 0.000039579612138029457         , 0.0000325699207913427121        , 0.0000275042617359268961        , 0.0000237078645258830705        , 0.0000207761237111096446        , 0.0000184548425644020391        , 0.0000165778383591108983        , 0.0000150326868994933939        , 0.0000137410434199630943        , 0.0000126468807691214708        , 0.0000117092106121525124        , 0.0000108974380876164412        , 0.0000101883147955950808        , 9.56389060017975152e-6          , 9.0101061808383741e-6           , 8.51580646803788085e-6          , 8.07203653031267054e-6          , 7.67153074245091837e-6          , 7.30833658987245985e-6          , 6.97753379900392286e-6          , 6.67502197915832024e-6          , 6.3973581882586959e-6           , },
-/* x = 8.2         */  {0.309467994880286342            , 0.0188532525189215975           , 0.00343201853578003965          , 0.00102959994566634487          , 0.000422716222542211694         , 0.000215231245909009934         , 0.000127615252135790667         , 0.000084411262670313192         , 0.0000604582542733265581        , 0.000045922972724049339         , 0.0000364562751088289704        , 0.0000299346467873942714        , 0.000025234347935239385         , 0.0000217198249029781888        , 0.0000190110794151383397        , 0.000016869983723589605         , 0.000015141214967020453         , 0.0000137199099963129647        , 0.0000125331268230982583        , 0.0000115287879562495872        , 0.0000106688512391214373        , 9.92495919706320752e-6          , 9.27558996960826803e-6          , 8.70414504025791059e-6          , 8.19763700731582135e-6          , 7.74577093819103161e-6          , 7.34028950460977346e-6          , 6.97449840074241863e-6          , 6.64291719931040835e-6          , 6.34101892613115538e-6          , 6.06503333351194143e-6          , 5.81179654707842072e-6          , },
-/* x = 8.3         */  {0.307599659864639378            , 0.0185151290986464714           , 0.00333113677523081098          , 0.000988383557171451981         , 0.000401817353800735653         , 0.000202881888981847522         , 0.000119468912752552453         , 0.0000785890987153752932        , 0.0000560433526278721311        , 0.0000424229016605948318        , 0.0000335854400267078183        , 0.0000275167116537898894        , 0.0000231546711403141828        , 0.0000199005994819218403        , 0.0000173975517412010644        , 0.0000154224200835469184        , 0.000013830011776024244         , 0.0000125225037048703634        , 0.0000114319760579825721        , 0.0000105100172914098281        , 9.72131609982116111e-6          , 9.03958632438045692e-6          , 8.4449027012293751e-6           , 7.92191532815481076e-6          , 7.4586261033327762e-6           , 7.04553325032253091e-6          , 6.67502220834319613e-6          , 6.34092469483357674e-6          , 6.03819464505389758e-6          , 5.76266672651326153e-6          , 5.51087408170665116e-6          , 5.27990914916588554e-6          , },
-/* x = 8.4         */  {0.305764639565554556            , 0.0181868912048437922           , 0.00323427418394955525          , 0.00094919664259338857          , 0.000382113641308028078         , 0.00019131877664246455          , 0.00011188328683858701          , 0.0000731913931382608846        , 0.0000519644983866110116        , 0.0000391981635948535074        , 0.0000309462966740100219        , 0.000025297911069962035         , 0.0000212490851446594364        , 0.0000182357026450974785        , 0.0000159224194784990266        , 0.0000141001690891442558        , 0.0000126332093800371224        , 0.0000114302729382367123        , 0.0000104281088487759916        , 9.58170852534901283e-6          , 8.85829216129543021e-6          , 8.23349133537287891e-6          , 7.68885733584437621e-6          , 7.2101938056040867e-6           , 6.78641575503236917e-6          , 6.40875284629391765e-6          , 6.07018279655604329e-6          , 5.76502166896559652e-6          , 5.48862307227735331e-6          , 5.23715422267624201e-6          , 5.00742708089583368e-6          , 4.79676950927366557e-6          , },
-/* x = 8.5         */  {0.303961965192900388            , 0.0178681468719935143           , 0.00314123366158646463          , 0.000911923525818922294         , 0.000363529194807165405         , 0.000180487904956108498         , 0.00010481756385332643          , 0.0000681858800636823184        , 0.0000481952842320347413        , 0.0000362265566431733192        , 0.0000285197768946852289        , 0.0000232615850457497431        , 0.0000195028286495058774        , 0.000016711902778058986         , 0.0000145737062351146145        , 0.0000128923006945693909        , 0.0000115407619130004085        , 0.0000104339278893158416        , 9.51288865384766359e-6          , 8.73579477539525756e-6          , 8.07221336645711002e-6          , 7.49955170671160802e-6          , 7.00072672811499827e-6          , 6.56260786791357341e-6          , 6.17495298713492798e-6          , 5.82966631523337039e-6          , 5.52027135683868916e-6          , 5.24153017069449123e-6          , 4.98916413985604962e-6          , 4.7596462918323914e-6           , 4.55004483573334813e-6          , 4.35790388053470951e-6          , },
-/* x = 8.6         */  {0.302190706186563224            , 0.0175585232786567235           , 0.00305182930478503439          , 0.000876455856410325163         , 0.000345993325651435873         , 0.000170339194022985101         , 0.000098234031429375406         , 0.000063542826448505881         , 0.0000447114304104656448        , 0.0000334877048436242347        , 0.000026288406881469845         , 0.0000213924855141446291        , 0.0000179024054161481014        , 0.000015317112891635082         , 0.0000133404799073586098        , 0.0000117888443980128231        , 0.0000105435106203964182        , 9.5250033026455043e-6           , 8.67844894912869335e-6          , 7.96493124710363541e-6          , 7.35619331217806141e-6          , 6.83128675184426702e-6          , 6.37439166637932308e-6          , 5.97336228601688452e-6          , 5.61873452181479345e-6          , 5.30303476170614849e-6          , 5.02028948717642139e-6          , 4.7656714623704191e-6           , 4.5352405094647631e-6           , 4.32575089371583557e-6          , 4.13450634079390545e-6          , 3.95924960004936671e-6          , },
-/* x = 8.7         */  {0.300449968356824519            , 0.017257665663553844            , 0.00296588569998125854          , 0.000842692108558543636         , 0.00032944016947828575          , 0.000160826190477984962         , 0.0000920978324293219062        , 0.0000592348281950316879        , 0.000041490609881485167         , 0.0000309629055745755419        , 0.0000242361721223736715        , 0.0000196766553782881431        , 0.0000164354748685628666        , 0.0000140402908463470261        , 0.0000122127610266515111        , 0.0000107807045278885294        , 9.63310513660408039e-6          , 8.69578497243110583e-6          , 7.91762431307214326e-6          , 7.26243037908252236e-6          , 6.70396401129798624e-6          , 6.22279962503356463e-6          , 5.80428579820746365e-6          , 5.43718677768404902e-6          , 5.11275675652395933e-6          , 4.82409598172647102e-6          , 4.56569448738026496e-6          , 4.33310326686900181e-6          , 4.12269360288285563e-6          , 3.93147841245341145e-6          , 3.75697789351252091e-6          , 3.59711727107071059e-6          , },
-/* x = 8.8         */  {0.29873889212967622             , 0.0169652363099193604           , 0.00288323726446946617          , 0.000810537116321128083         , 0.000313808337451842044         , 0.000151905793293812602         , 0.0000863767415418444331        , 0.0000552366230084375585        , 0.0000385122880699481123        , 0.0000286349898916841653        , 0.0000223483939117342352        , 0.0000181013180142580874        , 0.0000150907522291170119        , 0.0000128713483313891305        , 0.0000111814391961380639        , 9.85958304502995748e-6          , 8.80193177843477733e-6          , 7.93924281777676428e-6          , 7.22388770038125848e-6          , 6.62220283060397518e-6          , 6.10982018739081997e-6          , 5.66872457883789875e-6          , 5.28534555650869577e-6          , 4.94928834928492664e-6          , 4.65247030232471315e-6          , 4.38852100672922407e-6          , 4.15235774134737654e-6          , 3.93987984067808839e-6          , 3.74774523533058302e-6          , 3.57320473399810405e-6          , 3.41397751195520103e-6          , 3.26815642805628763e-6          , },
-/* x = 8.9         */  {0.297056650890482049            , 0.0166809135934831482           , 0.00280372763224536141          , 0.00077990164240139301          , 0.000299040593838637057         , 0.000143538001014928206         , 0.0000810409598136066753        , 0.0000515249186008356927        , 0.0000357575759848608957        , 0.0000264881946775631336        , 0.000020611616426499331         , 0.0000166547763187907024        , 0.0000138579173511334105        , 0.0000118010678256361694        , 0.0000102381968994474789        , 9.017909191121654e-6            , 8.04304822712133855e-6          , 7.24896994455015306e-6          , 6.59129334703617467e-6          , 6.03870378417567499e-6          , 5.5685686011707796e-6           , 5.16417899808935481e-6          , 4.81296463122644995e-6          , 4.50530797321229213e-6          , 4.23373866623406081e-6          , 3.99237461592458045e-6          , 3.77652690618776151e-6          , 3.58241570482808496e-6          , 3.40696276873782162e-6          , 3.2476377155081115e-6           , 3.10234262544759159e-6          , 2.96932436349953031e-6          , },
-/* x = 9.0         */  {0.295402449419840411            , 0.0164043910897640962           , 0.00272720908140031162          , 0.000750701977939715474         , 0.000285083557860629376         , 0.000135685678703276935         , 0.000076062925647187041         , 0.0000480782349625973324        , 0.0000332090955751266909        , 0.0000245080455939152331        , 0.0000190135034554283267        , 0.0000153263204709619617        , 0.0000127275314858580872        , 0.000010821026836654035         , 9.37544002794329975e-6          , 8.24877537353756352e-6          , 7.35012402738805108e-6          , 6.61912715650700757e-6          , 6.01442479950365085e-6          , 5.50688408305308511e-6          , 5.07548195291059833e-6          , 4.70471977681416567e-6          , 4.3829525731294208e-6           , 4.10128120578579924e-6          , 3.85280069918072304e-6          , 3.63207945406532665e-6          , 3.43479155948067274e-6          , 3.25745269809978366e-6          , 3.09722746160047511e-6          , 2.95178673469708511e-6          , 2.81920073669158178e-6          , 2.69785782508371883e-6          , },
-/* x = 9.1         */  {0.293775522415920395            , 0.0161353767366719934           , 0.00265354200008383877          , 0.000722859570985114236         , 0.000271887427934378292         , 0.000128314343017543401         , 0.0000714171409177397072        , 0.0000448767595296978823        , 0.0000308508562887556868        , 0.0000226812499131171395        , 0.0000175427439483027976        , 0.000014106143649683737         , 0.0000116909612886050118        , 9.92352877609948131e-6          , 8.58623453102039888e-6          , 7.54587873128993583e-6          , 6.7173863835095206e-6           , 6.04439242668678265e-6          , 5.4883476068089372e-6           , 5.022145767132744e-6            , 4.62625694659682859e-6          , 4.28630364397556244e-6          , 3.99149715389200271e-6          , 3.7336023865398564e-6           , 3.5062364657834349e-6           , 3.30438342490514145e-6          , 3.12405198791469661e-6          , 2.9620300477672629e-6           , 2.81570572181784198e-6          , 2.68293503590671742e-6          , 2.56194278177920836e-6          , 2.45124731859433925e-6          , },
-/* x = 9.2         */  {0.292175133097928179            , 0.0158735920487006025           , 0.0025825943882752562           , 0.000696300681496694982         , 0.000259405726556509322         , 0.000121391963976711443         , 0.0000670800109731919848        , 0.0000419022141746957854        , 0.0000286681418903990995        , 0.0000209955983858527902        , 0.000016188965624679873         , 0.0000129852650152817382        , 0.000010740309430129708         , 9.10153988674724729e-6          , 7.86424864701534381e-6          , 6.90346787643215325e-6          , 6.1395707789295326e-6           , 5.51991488410767528e-6          , 5.00856625579756979e-6          , 4.58030161018569193e-6          , 4.21697613913851274e-6          , 3.90525107976009085e-6          , 3.63513014090166065e-6          , 3.39899209258050971e-6          , 3.19093622359731553e-6          , 3.00633006082473424e-6          , 2.84149082961783129e-6          , 2.69345718112237542e-6          , 2.55982299590420093e-6          , 2.43861461573076643e-6          , 2.3281989397294494e-6           , 2.22721377643494905e-6          , },
-/* x = 9.3         */  {0.290600571885719452            , 0.0156187713792602838           , 0.00251424139281197194          , 0.000670956060891488514         , 0.000247595064234529369         , 0.00011488878207702102          , 0.0000630296973854332198        , 0.0000391377330393794903        , 0.0000266474066727160761        , 0.0000194398753740860192        , 0.0000149426559478204853        , 0.0000119554593239815512        , 9.8683512351291581e-6           , 8.34863168817503304e-6          , 7.20370022056734163e-6          , 6.31629435044513814e-6          , 5.61187598847451314e-6          , 5.04127291083255892e-6          , 4.57098496779388303e-6          , 4.17753829732259861e-6          , 3.84407323211871011e-6          , 3.55821349670396649e-6          , 3.31069617634931298e-6          , 3.09446755148095409e-6          , 2.90407222803395184e-6          , 2.73523159653173669e-6          , 2.5845473088680233e-6           , 2.4492890264425751e-6           , 2.32724005248216626e-6          , 2.2165834146940935e-6           , 2.11581666606334294e-6          , 2.02368737374680546e-6          , },
-/* x = 9.4         */  {0.289051155150906142            , 0.0153706612279441229           , 0.00244836487331253917          , 0.000646760654308833168         , 0.000236414920989638293         , 0.000108777139539899595         , 0.0000592459824139501743        , 0.0000365677503098255321        , 0.0000247761802707846127        , 0.0000180037765450375613        , 0.0000137950898297383725        , 0.0000110091925993549766        , 9.0684768206666063e-6           , 7.65892845532089866e-6          , 6.59930865622510644e-6          , 5.77956837627105446e-6          , 5.12992309083885243e-6          , 4.60443598090690784e-6          , 4.17187200931433573e-6          , 3.81038291425522123e-6          , 3.50430149464475348e-6          , 3.24214338956396967e-6          , 3.0153244784371507e-6           , 2.81731574324678292e-6          , 2.6430731051046029e-6           , 2.48864449965389784e-6          , 2.35089382583598549e-6          , 2.22730357514228555e-6          , 2.11583144022305545e-6          , 2.01480460298307967e-6          , 1.92284074571114031e-6          , 1.83878829424187745e-6          , },
-/* x = 9.5         */  {0.287526224035114883            , 0.0151290195897487991           , 0.00238485299680835246          , 0.000623653323902845352         , 0.000225827444075379836         , 0.000103031324567932523         , 0.0000557101442294503767        , 0.0000341778971102712792        , 0.000023042980356124663         , 0.0000166778334824430884        , 0.0000127382634883535836        , 0.0000101395633351434033        , 8.33463825371566766e-6          , 7.02705928711532105e-6          , 6.04625109812700405e-6          , 5.28891852410434347e-6          , 4.68971812418600295e-6          , 4.20572990581250031e-6          , 3.80782720082825891e-6          , 3.47567244962868358e-6          , 3.19470503409568781e-6          , 2.95426718474855835e-6          , 2.74640310823617987e-6          , 2.56506894646986856e-6          , 2.40560055770438057e-6          , 2.26434723367442403e-6          , 2.13841468577342285e-6          , 2.02548149780477998e-6          , 1.92366592060854251e-6          , 1.83142776773612271e-6          , 1.74749517940687623e-6          , 1.67080926611151886e-6          , },
-/* x = 9.6         */  {0.286025143331341837            , 0.0148936153434818221           , 0.00232359985906013606          , 0.000601576591604678459         , 0.000215797260663640382         , 0.00009762742757718279          , 0.0000524048420238623342        , 0.0000319549067614248162        , 0.0000214372325484644985        , 0.0000154533446267209688        , 0.0000117648339279606528        , 9.34024874980832481e-6          , 7.66130128930924988e-6          , 6.44811436155611323e-6          , 5.54012246203964501e-6          , 4.84035494314040793e-6          , 4.28761805971347775e-6          , 3.84180518123390066e-6          , 3.4757523360589922e-6           , 3.17052603871504367e-6          , 2.91259265724129323e-6          , 2.69206054458537236e-6          , 2.50155556907901763e-6          , 2.33548250613030836e-6          , 2.18952819256617813e-6          , 2.06032004921296121e-6          , 1.94518677182328898e-6          , 1.84198762582189808e-6          , 1.74898869423700633e-6          , 1.66477182711747332e-6          , 1.58816673484776317e-6          , 1.51819970494060834e-6          , },
-/* x = 9.7         */  {0.284547300424615478            , 0.0146642276767815596           , 0.00226450513068512663          , 0.000580476399916103663         , 0.000206291304348428018         , 0.0000925432084578675291        , 0.0000493140102053258106        , 0.0000298865277121656413        , 0.0000199491969396527074        , 0.000014322312006230615         , 0.0000108680635600597727        , 8.60545565505325414e-6          , 7.04340128933003864e-6          , 5.91760500927983868e-6          , 5.07689897924399737e-6          , 4.43023584251823857e-6          , 3.92029979715687114e-6          , 3.50960815736879649e-6          , 3.17282425024153514e-6          , 2.89231970132550025e-6          , 2.65551408755012444e-6          , 2.45322590393469106e-6          , 2.27861952659637216e-6          , 2.12651462080487896e-6          , 1.99292227446428947e-6          , 1.87472661832619013e-6          , 1.76946198357802068e-6          , 1.67515412765015466e-6          , 1.59020525605857788e-6          , 1.51330951248024967e-6          , 1.44339000943879563e-6          , 1.37955131559507412e-6          , },
-/* x = 9.8         */  {0.283092104288427166            , 0.0144406455453568872           , 0.00220747372635910636          , 0.000560301889406293613         , 0.000197278654408769301         , 0.0000877579739921809556        , 0.0000464227609429496699        , 0.0000279614435115392208        , 0.0000185699006755567005        , 0.0000132773832679738228        , 0.0000100417695234349822        , 7.9298755387733492e-6           , 6.47630295712296172e-6          , 5.43142727019882965e-6          , 4.65290494199956219e-6          , 4.0552369329495062e-6           , 3.58473191271723013e-6          , 3.20635477997406186e-6          , 2.89647029933240731e-6          , 2.63866334913888207e-6          , 2.42123832572650096e-6          , 2.23567203686783456e-6          , 2.07562745679285227e-6          , 1.93630796548476379e-6          , 1.81402423191872022e-6          , 1.70589734346124024e-6          , 1.60965127981358524e-6          , 1.52346522438484876e-6          , 1.44586673005049491e-6          , 1.37565327452557286e-6          , 1.31183386555264373e-6          , 1.25358501870072886e-6          , },
-/* x = 9.9         */  {0.281658984533620193            , 0.0142226671642204049           , 0.00215241549548510301          , 0.000541005191685320188         , 0.000188730386855609395         , 0.0000832524646285004672        , 0.0000437172943867338302        , 0.0000261691992409780045        , 0.000017291076088812867         , 0.00001231179855826482          , 9.28027730054829687e-6          , 7.30864349774439051e-6          , 5.95576355514877169e-6          , 4.98582862740121162e-6          , 4.26478236786148543e-6          , 3.71232356625291795e-6          , 3.27814891402349264e-6          , 2.92950667205050277e-6          , 2.64434603361577247e-6          , 2.4073798579600141e-6           , 2.20773395981137614e-6          , 2.0374954694995515e-6           , 1.89078904708613194e-6          , 1.76317298296467853e-6          , 1.65123475470528227e-6          , 1.55231418810017823e-6          , 1.46431017863301958e-6          , 1.38554330360478461e-6          , 1.31465654758019453e-6          , 1.25054248262099928e-6          , 1.19228911204361897e-6          , 1.13913907972148761e-6          , },
-/* x = 10.0        */  {0.280247390506642741            , 0.0140100995288440128           , 0.00209924493283847768          , 0.000522541236721495176         , 0.000180619436364399069         , 0.0000790087498758553385        , 0.0000411848159435961936        , 0.0000245001338752132833        , 0.0000161051039182857199        , 0.0000114193418424186193        , 8.57837826217344578e-6          , 6.73730068715787549e-6          , 5.47789930210731424e-6          , 4.57737763950990022e-6          , 3.90946332521412272e-6          , 3.39872533343623537e-6          , 2.99802777870192225e-6          , 2.67674934673392913e-6          , 2.4143148686601334e-6           , 2.19648601889700422e-6          , 2.01315124872491564e-6          , 1.85696357176183449e-6          , 1.72247519116370159e-6          , 1.60557269199408599e-6          , 1.50309933806185951e-6          , 1.41259689012731322e-6          , 1.33212558170040614e-6          , 1.26013630338183369e-6          , 1.19537834617580006e-6          , 1.1368317984767876e-6           , 1.08365731738228085e-6          , 1.03515832989171402e-6          , },
-/* x = 10.1        */  {0.278856790434270053            , 0.0138027579643091461           , 0.00204788090780703652          , 0.000504867573455934747         , 0.00017292046826565557          , 0.0000750101316418613577        , 0.0000388134600413452587        , 0.0000229453180847617651        , 0.0000150049611904022657        , 0.0000105942962876998915        , 7.93129080400976391e-6          , 6.21175998311407593e-6          , 5.0391546725902494e-6           , 4.20293621729977854e-6          , 3.58414468523729269e-6          , 3.11191290329607819e-6          , 2.7420665731127582e-6           , 2.44597236076338179e-6          , 2.20442957432760664e-6          , 2.00417519924855134e-6          , 1.83580581907885119e-6          , 1.69249917608575199e-6          , 1.56920343298943699e-6          , 1.46210887421900773e-6          , 1.36829514173230965e-6          , 1.28549043166249825e-6          , 1.21190380145973773e-6          , 1.14610625010224709e-6          , 1.0869449767486575e-6           , 1.03348061630558262e-6          , 9.84940650333102299e-7          , 9.40684378466263952e-7          , },
-/* x = 10.2        */  {0.27748667061208716             , 0.0136004657006570114           , 0.00199824641094543665          , 0.000487944202747208654         , 0.000165609759830702641         , 0.0000712410548917743658        , 0.0000365922198590878098        , 0.0000214964970335301384        , 0.0000139841733734718319        , 9.83140336592619793e-6          , 7.33462476806230668e-6          , 5.72827458064616351e-6          , 4.63627434660465962e-6          , 3.85963431279361696e-6          , 3.28626508633828202e-6          , 2.8495769029256605e-6           , 2.50816496600827308e-6          , 2.23525123500717191e-6          , 2.01291541868256434e-6          , 1.8288015591729498e-6           , 1.6741638295891342e-6           , 1.54266658475626458e-6          , 1.4296247284506212e-6           , 1.33150951451721812e-6          , 1.24561904402855623e-6          , 1.16985365065061522e-6          , 1.10255968132620939e-6          , 1.04241884441972516e-6          , 9.88368517595989186e-7          , 9.3954347151199407e-7           , 8.9523265368043851e-7           , 8.54846725018629634e-7          , },
-/* x = 10.3        */  {0.276136534634196706            , 0.0134030534727675236           , 0.00195026831665615786          , 0.000471733421752187879         , 0.000158665090149494959         , 0.0000676870250562978465        , 0.0000345108825453183164        , 0.000020146037762301899         , 0.0000130367704489713345        , 9.12582536149483949e-6          , 6.78434886809140566e-6          , 5.28340927399031675e-6          , 4.26627757844943163e-6          , 3.54484680949110665e-6          , 3.01348391604567407e-6          , 2.60960865920415312e-6          , 2.29440646842765791e-6          , 2.04283098409678239e-6          , 1.83815481833341699e-6          , 1.66886568410764248e-6          , 1.52682847060577975e-6          , 1.40615884024844544e-6          , 1.30251140509534758e-6          , 1.2126173807559052e-6           , 1.13397678202954131e-6          , 1.06464888998682186e-6          , 1.00310670891305441e-6          , 9.48133999353052919e-7          , 8.98751202849461981e-7          , 8.54161328966035883e-7          , 8.13709865207627347e-7          , 7.76854688929430799e-7          , },
-/* x = 10.4        */  {0.274805902661777768            , 0.0132103591432100656           , 0.00190387716089527852          , 0.000456199678916730237         , 0.000152065637952341732         , 0.0000643345316616669207        , 0.0000325599694841313698        , 0.0000188868807829473159        , 0.0000121572465738368318        , 8.47311099744338964e-6          , 6.27676086264522917e-6          , 4.87401418784356616e-6          , 3.92643477461530698e-6          , 3.25617242100860759e-6          , 2.76366213263599848e-6          , 2.39008263644424613e-6          , 2.09904224621961507e-6          , 1.86711111138671447e-6          , 1.6786733601024697e-6           , 1.52300150554748762e-6          , 1.39252767826674907e-6          , 1.28178614425639785e-6          , 1.18674621127987842e-6          , 1.10437963938417753e-6          , 1.03237307897368785e-6          , 9.68932589485916736e-7          , 9.1264803150856332e-7           , 8.6239724334376055e-7           , 8.17277181514576623e-7          , 7.76553670092655337e-7          , 7.39624208031876365e-7          , 7.05990080843308737e-7          , },
-/* x = 10.5        */  {0.273494310728271882            , 0.0130222273466153398           , 0.00185900693288077486          , 0.000441309438812101294         , 0.000145791886777855328         , 0.0000611709776976643237        , 0.0000307306812059314478        , 0.0000177124955393981744        , 0.0000113405230352964504        , 7.8691639166805952e-6           , 5.80846024129448338e-6          , 4.49720074844938062e-6          , 3.61424608878993316e-6          , 2.99141442238100815e-6          , 2.53484476450190773e-6          , 2.18924042003848411e-6          , 1.92047636530694522e-6          , 1.70663193835152544e-6          , 1.53312707107410631e-6          , 1.38996439428546551e-6          , 1.27010295368504748e-6          , 1.16846532149237089e-6          , 1.08131235592499003e-6          , 1.00583841270844731e-6          , 9.39902668930945977e-7          , 8.81846734660437857e-7          , 8.30368291330246326e-7          , 7.84431909083614162e-7          , 7.43205030945315287e-7          , 7.06011305435038739e-7          , 6.72296079567625131e-7          , 6.41600547803713102e-7          , },
-/* x = 10.6        */  {0.272201310079112563            , 0.0128385091542160877           , 0.00181559487985456415          , 0.000427031056110439508         , 0.000139825536935923272         , 0.0000581846142779153891        , 0.0000290148465719606643        , 0.0000166168394199993132        , 0.0000105819142249286086        , 7.31021377793788441e-6          , 5.37632320987342489e-6          , 4.15031970169050596e-6          , 3.3274218588386057e-6           , 2.74856305374820501e-6          , 2.32524493960841222e-6          , 2.00547610929909237e-6          , 1.75725234230040883e-6          , 1.56006214926463657e-6          , 1.40029082513014545e-6          , 1.26862032067510309e-6          , 1.15849918749178416e-6          , 1.06521023375754501e-6          , 9.85284449059964111e-7          , 9.16122192273357961e-7          , 8.55742137044557922e-7          , 8.02611084135855752e-7          , 7.55526205633275807e-7          , 7.13532036182095355e-7          , 6.75860955590190956e-7          , 6.41889846091400389e-7          , 6.11108074900444657e-7          , 5.83093530067166408e-7          , },
-/* x = 10.7        */  {0.2709264665440452              , 0.0126590617572958873           , 0.00177358132401749764          , 0.000413334658045526917         , 0.000134149423757265244         , 0.0000553644801823446263        , 0.0000274048758921765745        , 0.0000155943200320132371        , 9.87709638163487675e-6          , 6.79278974647573413e-6          , 4.97747977896386701e-6          , 3.83094100210415948e-6          , 3.06386472594315297e-6          , 2.5257794502507771e-6           , 2.1332293104466723e-6           , 1.83732299484772441e-6          , 1.60804088444239543e-6          , 1.42618744268162873e-6          , 1.27904778414228089e-6          , 1.15793598598374759e-6          , 1.05675539907261503e-6          , 9.711230583535057e-7            , 8.97820261494792087e-7          , 8.34438030563245304e-7          , 7.79142501086931537e-7          , 7.30516104675114528e-7          , 6.87447823608347967e-7          , 6.49055922337862049e-7          , 6.14632608194870014e-7          , 5.83603773546513851e-7          , 5.55499286263183307e-7          , 5.29930773310373239e-7          , },
-/* x = 10.8        */  {0.269669359940206005            , 0.0124837481683701312           , 0.00173290949081940841          , 0.000400192034753975467         , 0.000128747441660493349         , 0.0000527003459043179723        , 0.0000258937176637187852        , 0.0000146397604730172347        , 9.22207887426326781e-6          , 6.31369617830109335e-6          , 4.6092927766920758e-6           , 3.53683541200748405e-6          , 2.8216532900463054e-6           , 2.32138096481415271e-6          , 1.95730475179676791e-6          , 1.68344140698770059e-6          , 1.4716287132151288e-6           , 1.30390019096885712e-6          , 1.16837978114528069e-6          , 1.05696983755571524e-6          , 9.63996308032451752e-7          , 8.85386352692527102e-7          , 8.18153229379941155e-7          , 7.60064440320621091e-7          , 7.09422466847095131e-7          , 6.64916549274802084e-7          , 6.25520398233470827e-7          , 5.90420263666760065e-7          , 5.58963476412030886e-7          , 5.30621052977491854e-7          , 5.04960125671300138e-7          , 4.81623345128582036e-7          , },
-/* x = 10.9        */  {0.268429583504242283            , 0.0123124369390021332           , 0.0016935253478445238           , 0.000387576536937010938         , 0.000123604473603820918         , 0.0000501826618549820043        , 0.0000244748186426156643        , 0.0000137483673558817923        , 8.61317781387368437e-6          , 5.86999031376477383e-6          , 4.26933862228211642e-6          , 3.26595766385981102e-6          , 2.59902716848601324e-6          , 2.13382776221879662e-6          , 1.7961062194553644e-6           , 1.54260763157912857e-6          , 1.3469083753748817e-6           , 1.19219001796286841e-6          , 1.06735856114311145e-6          , 9.64863888372227469e-7          , 8.79424662877812227e-7          , 8.07255834046318191e-7          , 7.45585636156473278e-7          , 6.92344937213795082e-7          , 6.45962296021458903e-7          , 6.05225619691326675e-7          , 5.69186816902619069e-7          , 5.37094830277901189e-7          , 5.08347783004770672e-7          , 4.82458240160154292e-7          , 4.59027622645345802e-7          , 4.37727109430528861e-7          , },
-/* x = 11.0        */  {0.267206743351862277            , 0.0121450018932305469           , 0.00165537745358642704          , 0.000375462980324631344         , 0.000118706325521916988         , 0.0000478025104048639653        , 0.0000231420869846935436        , 0.0000129157013641259276        , 8.04699180325651158e-6          , 5.45896181205068353e-6          , 3.95538971085078762e-6          , 3.01643105171004003e-6          , 2.39437333632205734e-6          , 1.9617105735366261e-6           , 1.64838566796560206e-6          , 1.41370379912530911e-6          , 1.23286895375631469e-6          , 1.09013521289603298e-6          , 9.75137802777977038e-7          , 8.8083626875179505e-7           , 8.0231425868519762e-7           , 7.36053809811247415e-7          , 6.79482410528999069e-7          , 6.30682167434513582e-7          , 5.88198230871658138e-7          , 5.50909660112072249e-7          , 5.17940539794092062e-7          , 4.88597628129146363e-7          , 4.62325852584426848e-7          , 4.38676036684848684e-7          , 4.17281153370927866e-7          , 3.97838616608224568e-7          , },
-/* x = 11.1        */  {0.266000457963301802            , 0.0119813218756523399           , 0.00161841681545662904          , 0.000363827556462310369         , 0.000114039665379113403         , 0.0000455515614681155677        , 0.0000218898582130367665        , 0.000012137650132865898         , 7.52037964743844336e-6          , 5.07811397236930221e-6          , 3.66539827275503217e-6          , 2.78653332918921836e-6          , 2.20621363745481956e-6          , 1.80373950975294869e-6          , 1.51300193439074715e-6          , 1.29570866114759637e-6          , 1.1285875980054261e-6           , 9.96894906050632126e-7          , 8.90945850987256595e-7          , 8.04174444444750722e-7          , 7.32003581688750008e-7          , 6.71163199521789295e-7          , 6.19265484665851878e-7          , 5.74532567121995788e-7          , 5.35617424994539372e-7          , 5.01483333553036092e-7          , 4.71320999610351923e-7          , 4.44490502679892969e-7          , 4.20479902141400239e-7          , 3.98875252351566921e-7          , 3.79338561661595512e-7          , 3.61591371238842264e-7          , },
-/* x = 11.2        */  {0.264810357693287246            , 0.0118212805132688199           , 0.00158259675641699905          , 0.000352647749375862245         , 0.000109591966498453338         , 0.0000434220313580535306        , 0.0000207128637889691019        , 0.0000114104032674516684        , 7.03043986366491394e-6          , 4.72514650074207962e-6          , 3.39748158251868569e-6          , 2.57468380210765384e-6          , 2.03319336530335201e-6          , 1.65873384227244852e-6          , 1.38891150337835521e-6          , 1.18768917554872088e-6          , 1.03322180251470509e-6          , 9.11701938272514038e-7          , 8.14079097047189195e-7          , 7.34229041297546734e-7          , 6.67890024326936127e-7          , 6.12022095166224457e-7          , 5.64408661895834744e-7          , 5.23401505340696879e-7          , 4.87753334166598211e-7          , 4.56505236985819597e-7          , 4.28909420562314557e-7          , 4.04375143934005274e-7          , 3.82430216548631102e-7          , 3.62693137392456224e-7          , 3.44852635735444814e-7          , 3.2865244259737412e-7           , },
-/* x = 11.3        */  {0.263636084304160788            , 0.0116647659902610177           , 0.00154787278966908251          , 0.000341902257702815236         , 0.000105351454852120284         , 0.000041406644664039572         , 0.0000196062020815330558        , 0.0000107304293273513936        , 6.57449184285321563e-6          , 4.39793969321754138e-6          , 3.14990840306836529e-6          , 2.37943151339147968e-6          , 1.87407082062901779e-6          , 1.52561266610341656e-6          , 1.27516007623911578e-6          , 1.08879282960823571e-6          , 9.46002365312702495e-7          , 8.33856362545617337e-7          , 7.43895948110990101e-7          , 6.70408222049486868e-7          , 6.09424619386803422e-7          , 5.58118811197819016e-7          , 5.14432947775132177e-7          , 4.76838866729766258e-7          , 4.44181525420831133e-7          , 4.15573915213827212e-7          , 3.90325018323759173e-7          , 3.67889456166858656e-7          , 3.47831673778274141e-7          , 3.29800050600592722e-7          , 3.13507908125961952e-7          , 2.9871938645555082e-7           , },
-/* x = 11.4        */  {0.262477290520914275            , 0.0115116708349154247           , 0.00151420250087296857          , 0.000331570921908870697         , 0.00010130706002278526          , 0.0000394985989194068596        , 0.0000185653115469686189        , 0.0000100944546170175922        , 6.15005852687162016e-6          , 4.09453991729064031e-6          , 2.92108656078645711e-6          , 2.19944442692651999e-6          , 1.72770776213679895e-6          , 1.4033863688960101e-6           , 1.17087487357900565e-6          , 9.98240635578957033e-7          , 8.66226967559505455e-7          , 7.62719521354067385e-7          , 6.79811333543921704e-7          , 6.1217256572518243e-7           , 5.56107246521542593e-7          , 5.08987380034750118e-7          , 4.68902302583478572e-7          , 4.34435033932701407e-7          , 4.04515866326579934e-7          , 3.78324237167169875e-7          , 3.55221546181347367e-7          , 3.34704258992125737e-7          , 3.1637058780596368e-7           , 2.99896432559166057e-7          , 2.85017749052625163e-7          , 2.71517449544701372e-7          , },
-/* x = 11.5        */  {0.261333639606953566            , 0.0113618917179719537           , 0.00148154543740509697          , 0.000321634656235950181         , 0.0000974483695675226328        , 0.0000376915318482205645        , 0.0000175859459448606739        , 9.49944363845904564e-6          , 5.75485047731543365e-6          , 3.81314628329268093e-6          , 2.70955155582305334e-6          , 2.03349952494145258e-6          , 1.59306067282707386e-6          , 1.29114883574113633e-6          , 1.07525760723391175e-6          , 9.15320739615336091e-7          , 7.93254318671509047e-7          , 6.9770864858822121e-7           , 6.21291700085088331e-7          , 5.59030404544241632e-7          , 5.07482268634552735e-7          , 4.64203452842867453e-7          , 4.27419777113590858e-7          , 3.95817233542646864e-7          , 3.68405059907551821e-7          , 3.44424101601709934e-7          , 3.2328415578506504e-7           , 3.04520289477292887e-7          , 2.87761840113930351e-7          , 2.7271005599405736e-7           , 2.59121726305159717e-7          , 2.46797030694957914e-7          , },
-/* x = 11.6        */  {0.260204804959485507            , 0.0112153292617133301           , 0.00144986300419843719          , 0.000312075385054135273         , 0.0000937655865363232455        , 0.0000359794909952871377        , 0.0000166641514315478836        , 8.942581072149779e-6            , 5.38675122181030477e-6          , 3.55209840666067097e-6          , 2.51395612027177302e-6          , 1.88047374092498357e-6          , 1.4691727717684055e-6           , 1.18807032577424669e-6          , 9.87578062916251985e-7          , 8.39382590013952289e-7          , 7.26498816990728727e-7          , 6.38291949329587652e-7          , 5.67850452167584196e-7          , 5.10533577325560379e-7          , 4.63134559459018979e-7          , 4.23380569033282916e-7          , 3.89623997076877195e-7          , 3.60646212595338762e-7          , 3.35529493781608076e-7          , 3.1357144220048195e-7           , 2.9422654379211056e-7           , 2.7706547779026919e-7           , 2.61746273371430645e-7          , 2.47993527841548806e-7          , 2.35583207172576082e-7          , 2.24331375055152006e-7          , },
-/* x = 11.7        */  {0.259090469723485612            , 0.0110718878591591818           , 0.00141911836574003368          , 0.000302875983313650044         , 0.0000902494899160167924        , 0.0000343569055591193917        , 0.0000157962453841690574        , 8.42125516382223853e-6          , 5.04380377335795781e-6          , 3.30986517035589392e-6          , 2.33306064427370168e-6          , 1.73933565679446027e-6          , 1.35516670707330004e-6          , 1.09339096222543316e-6          , 9.07168240142279074e-7          , 7.69831615528578122e-7          , 6.65425680368741738e-7          , 5.83984115017568901e-7          , 5.1904379764348489e-7           , 4.66273562053486147e-7          , 4.22685887150794643e-7          , 3.8616676121475279e-7           , 3.55185964593034397e-7          , 3.28613215637999263e-7          , 3.055983749670342e-7            , 2.85491504813132937e-7          , 2.67788358321043363e-7          , 2.52092471378544152e-7          , 2.38088323293271934e-7          , 2.25522019955518597e-7          , 2.14187180197360347e-7          , 2.03914479969299832e-7          , },
-/* x = 11.8        */  {0.257990326423266081            , 0.0109314755027691103           , 0.00138927635383018026          , 0.000294020220815077307         , 0.0000868913977877315374        , 0.0000328185602616316514        , 0.0000149787968204606484        , 7.93304240469964262e-6          , 4.72419822692448203e-6          , 3.0850344043491242e-6           , 2.16572439693036002e-6          , 1.60913789917206344e-6          , 1.25023787143561846e-6          , 1.00641478266159314e-6          , 8.33417000711277607e-7          , 7.06124368879245222e-7          , 6.09546505092361802e-7          , 5.34342235295384581e-7          , 4.74466962722949025e-7          , 4.2587795363018011e-7           , 3.85791621885600039e-7          , 3.52241465348844842e-7          , 3.23806148089977324e-7          , 2.99437235125937129e-7          , 2.78347124400092445e-7          , 2.59934372056257053e-7          , 2.43732841516620608e-7          , 2.29376384970509697e-7          , 2.16573866877168219e-7          , 2.0509120749668327e-7           , 1.94738276577434303e-7          , 1.85359193057060556e-7          , },
-/* x = 11.9        */  {0.256904076610721443            , 0.0107940036220972296           , 0.00136030338073463484          , 0.00028549271003637793          , 0.0000836831330019859679        , 0.0000313595711012812705        , 0.0000142086082901980884        , 7.47569340189897796e-6          , 4.42626034542458809e-6          , 2.87630340608565229e-6          , 2.01089747513646725e-6          , 1.48901017523051845e-6          , 1.15364828667741392e-6          , 9.26504300821675425e-7          , 7.6576518129435981e-7           , 6.47764094544410146e-7          , 5.58415215272993341e-7          , 4.88962071286945683e-7          , 4.33750743179143945e-7          , 3.89007255892808948e-7          , 3.52137738337818319e-7          , 3.21312708591221767e-7          , 2.95211834539624495e-7          , 2.72862510374102071e-7          , 2.53535007571568249e-7          , 2.3667271275745257e-7           , 2.2184468669120202e-7           , 2.08712755766984625e-7          , 1.97008267218684092e-7          , 1.86515395969979841e-7          , 1.77058972892829312e-7          , 1.68495484835425001e-7          , },
-/* x = 12.0        */  {0.255831430529383064            , 0.010659386929876239            , 0.00133216735738647453          , 0.000277278857274126852         , 0.0000806169911902316565        , 0.0000299753628482815291        , 0.0000134826991240736921        , 7.04711984415124115e-6          , 4.14844105453918364e-6          , 2.68247023224324634e-6          , 1.86761341913722795e-6          , 1.37815289368973238e-6          , 1.06472100839731812e-6          , 8.53075535691864307e-7          , 7.03701129598005272e-7          , 5.9429668354224763e-7           , 5.11624368186727782e-7          , 4.47474658201408627e-7          , 3.96558361821712175e-7          , 3.55351959753130863e-7          , 3.21438086543495579e-7          , 2.93114549789796207e-7          , 2.69154720318042798e-7          , 2.48656252540988173e-7          , 2.30942979837426432e-7          , 2.15499735779403559e-7          , 2.0192809047589049e-7           , 1.89915685078916091e-7          , 1.79214596917173969e-7          , 1.69625819622946104e-7          , 1.60987958517733765e-7          , 1.53168879843897912e-7          , },
-/* x = 12.1        */  {0.254772106793464264            , 0.0105275432760422568           , 0.00130483761631756695          , 0.000269364816873809281         , 0.0000776857109452485464        , 0.0000286616481514705278        , 0.0000127982899348977546        , 6.64538247570333329e-6          , 3.88930677247520062e-6          , 2.50242569795158125e-6          , 1.73498243881941734e-6          , 1.27583132122138925e-6          , 9.82835006051314397e-7          , 7.85593467340194861e-7          , 6.46756627129550288e-7          , 5.45306981202760912e-7          , 4.68801784117167108e-7          , 4.09543208025469846e-7          , 3.6258260492732646e-7           , 3.24629881845493172e-7          , 2.93431907038185513e-7          , 2.67404749872539742e-7          , 2.45408719126820852e-7          , 2.26606575167636118e-7          , 2.10371726910279062e-7          , 1.96227329626178915e-7          , 1.83804982201858693e-7          , 1.72816149382163903e-7          , 1.63032023734250842e-7          , 1.54269095504221229e-7          , 1.46378652607392901e-7          , 1.39239031710777797e-7          , },
-/* x = 12.2        */  {0.253725832081125116            , 0.0103983935092425412           , 0.00127828483902133246          , 0.000261737448340145528         , 0.0000748824460153240676        , 0.0000274144081365084084        , 0.0000121527882743639774        , 6.26867999834509268e-6          , 3.64753050688790762e-6          , 2.33514602499930267e-6          , 1.61218519950308633e-6          , 1.18137022878907248e-6          , 9.07420477665459949e-7          , 7.23567882562502229e-7          , 5.94503164839185076e-7          , 5.00415416935447659e-7          , 4.2960747204456693e-7           , 3.74860285670461655e-7          , 3.31543212760439081e-7          , 2.96583740369868921e-7          , 2.6788156833251818e-7           , 2.43962651414827912e-7          , 2.23767967365826061e-7          , 2.06520611653718377e-7          , 1.91639882812021286e-7          , 1.78684370929409783e-7          , 1.67313414356084205e-7          , 1.57260465318074529e-7          , 1.48314343663223557e-7          , 1.40305818921815509e-7          , 1.33097856937527488e-7          , 1.26578428937611984e-7          , },
-/* x = 12.3        */  {0.252692340841230325            , 0.0102718613453970424           , 0.00125248098746861967          , 0.000254384276133333948         , 0.0000722007393687095284        , 0.0000262298743843618911        , 0.0000115437753562966491        , 5.9153388279989107e-6           , 3.42188365678457015e-6          , 2.17968608545749828e-6          , 1.49846712034996881e-6          , 1.0941489863522809e-6           , 8.37954561911350649e-7          , 6.66549576613842743e-7          , 5.46548540873598345e-7          , 4.59274927733785254e-7          , 3.93730825067646671e-7          , 3.43145234315004283e-7          , 3.03184501542354275e-7          , 2.70978946909913553e-7          , 2.44570506764365602e-7          , 2.22587248546981906e-7          , 2.04045009123454765e-7          , 1.88222802742773563e-7          , 1.74582409179964338e-7          , 1.62715186452642999e-7          , 1.5230609943095765e-7           , 1.43108894583639053e-7          , 1.34928647927516795e-7          , 1.27609287348992787e-7          , 1.21024532134444702e-7          , 1.15071219395036262e-7          , },
-/* x = 12.4        */  {0.251671375012915116            , 0.010147873242911596            , 0.00122739923951722791          , 0.000247293451970911446         , 0.0000696344989955179199        , 0.0000251045121875857085        , 0.0000109689937643510921        , 5.58380363826727774e-6          , 3.21122846235780068e-6          , 2.03517319163495574e-6          , 1.39313314248098588e-6          , 1.01359706792600783e-6          , 7.73957413498486727e-7          , 6.14126880238970118e-7          , 5.02533752375664674e-7          , 4.21568149651555093e-7          , 3.60888061760584622e-7          , 3.14141827845305778e-7          , 2.77273196252015846e-7          , 2.47601594910841816e-7          , 2.23301350563996838e-7          , 2.03095430064038754e-7          , 1.86069144565240208e-7          , 1.71553338625004037e-7          , 1.5904912128385002e-7           , 1.48178154652134747e-7          , 1.38649079827546889e-7          , 1.30234375940494994e-7          , 1.22754111660948202e-7          , 1.16064341013642673e-7          , 1.10048685978597114e-7          , 1.04612142627367529e-7          , },
-/* x = 12.5        */  {0.250662683757313042            , 0.0100263582841656385           , 0.00120301392797299348          , 0.000240453719467715549         , 0.0000671779753240772068        , 0.0000240350049897846476        , 0.0000104263360686220981        , 5.27262862880034418e-6          , 3.01451105039705967e-6          , 1.90080138738685373e-6          , 1.295542927530862e-6            , 9.39189932242777239e-7          , 7.1498861078020822e-7           , 5.65922483897061381e-7          , 4.62130155725679451e-7          , 3.87004853758641324e-7          , 3.30819891777568402e-7          , 2.87616130263243451e-7          , 2.53596455485393991e-7          , 2.26256627235236267e-7          , 2.03894211603821737e-7          , 1.85320380147120809e-7          , 1.69684926969900951e-7          , 1.56366741662674873e-7          , 1.44903347442681921e-7          , 1.34944434104509725e-7          , 1.26220518690053e-7             , 1.1852137273976552e-7           , 1.11680893144337304e-7          , 1.05566309485942214e-7          , 1.00070363503676785e-7          , 9.51055600658245152e-8          , },
-/* x = 12.6        */  {0.249666023200836123            , 0.00990724806292071363          , 0.001179300483076508            , 0.000233854380958269875         , 0.0000648257401378472198        , 0.0000230182399208922934        , 9.91383428157444622e-6          , 4.98046946136224673e-6          , 2.83075502723390943e-6          , 1.77582619955703481e-6          , 1.2051064506922412e-6           , 8.70445247238011187e-7          , 6.60643867156153734e-7          , 5.21590533522407148e-7          , 4.25036871863722611e-7          , 3.5531960515511002e-7           , 3.03289385939255056e-7          , 2.63354543724453715e-7          , 2.3196007127844035e-7           , 2.06766166792186895e-7          , 1.86185129791908956e-7          , 1.69110122513058888e-7          , 1.5475079499691861e-7           , 1.42530577012783899e-7          , 1.32020709740542065e-7          , 1.22896807267753094e-7          , 1.14909600655405738e-7          , 1.07864825420528607e-7          , 1.01609133491662309e-7          , 9.6020054558951127e-8           , 9.0998729557100527e-8           , 8.64645741604741642e-8          , },
-/* x = 12.7        */  {0.248681156189432009            , 0.00979047657731787294          , 0.00115623537820455049          , 0.000227485266356878584         , 0.0000625726668874060498        , 0.0000220512943475833869        , 9.42965008918822189e-6          , 4.70607581107915214e-6          , 2.65905557512404968e-6          , 1.6595598117745049e-6           , 1.12127995534169972e-6          , 8.06919429296821804e-7          , 6.10552020306711861e-7          , 4.80813974394936075e-7          , 3.90978415379009993e-7          , 3.26269625510034235e-7          , 2.78080032786403191e-7          , 2.41162028500586028e-7          , 2.12186828326145305e-7          , 1.88967995670510081e-7          , 1.70024656421790274e-7          , 1.5432619508885752e-7           , 1.41137827983639888e-7          , 1.29924279575880895e-7          , 1.20288015040550466e-7          , 1.11928629092541441e-7          , 1.04615532507212333e-7          , 9.81691994033792688e-8          , 9.24480476043086442e-8          , 8.73391006066603348e-8          , 8.2751235344745651e-8           , 7.86102282674434839e-8          , },
-/* x = 12.8        */  {0.247707852053275027            , 0.00967598012815246053          , 0.00113379607858927126          , 0.000221336703920871841         , 0.0000604139122997681908        , 0.0000211314233642920514        , 8.97206579824903769e-6          , 4.4482844845781363e-6           , 2.49857401158729858e-6          , 1.55136662597448731e-6          , 1.04356223912023664e-6          , 7.48204470683115965e-7          , 5.64372275534158843e-7          , 4.4330212173112384e-7           , 3.59702527918091519e-7          , 2.99632841312009892e-7          , 2.54993965181058823e-7          , 2.20860479646005483e-7          , 1.94115008420819966e-7          , 1.727141695130132e-7            , 1.55276564022277892e-7          , 1.4084244347172628e-7           , 1.2872861317371208e-7           , 1.18438086749212609e-7          , 1.09602246295929369e-7          , 1.01942870955599152e-7          , 9.52466346366545287e-8          , 8.93476196759956729e-8          , 8.41150980524437975e-8          , 7.94448444121912369e-8          , 7.52528612610188353e-8          , 7.14707798783182876e-8          , },
-/* x = 12.9        */  {0.24674588638137813             , 0.00956369722213380865          , 0.00111196099287114571          , 0.000215399492791855113         , 0.0000583448991944619827        , 0.0000202560481559802794        , 8.53947594534559835e-6          , 4.20601306060566444e-6          , 2.34853277454334615e-6          , 1.45065917989807165e-6          , 9.71491243883594007e-7          , 6.93925030840652642e-7          , 5.21791681529781969e-7          , 4.08788438464260204e-7          , 3.30978198165441455e-7          , 2.75206101586479311e-7          , 2.33850341988923359e-7          , 2.02287246502629259e-7          , 1.77597027198658453e-7          , 1.57869755057508791e-7          , 1.41816671371170809e-7          , 1.28543922494239039e-7          , 1.17416214782389253e-7          , 1.07972067416313194e-7          , 9.98696450658947347e-8          , 9.28512512543490711e-8          , 8.67195150428359169e-8          , 8.13210841629328538e-8          , 7.65352443059949996e-8          , 7.22658371928325197e-8          , 6.8435429012034213e-8           , 6.49810404599787218e-8          , },
-/* x = 13.0        */  {0.245795040805641159            , 0.0094535684798551607           , 0.0010907094273137885           , 0.000209664877198536979         , 0.0000563613004224145308        , 0.0000194227451690288355        , 8.13037951739754369e-6          , 3.9782540122764236e-6           , 2.2082107991217423e-6           , 1.3568943914649448e-6           , 9.04640924263572954e-7          , 6.43735769328999143e-7          , 4.82522818753304844e-7          , 3.77028502378906415e-7          , 3.04593852201900726e-7          , 2.52803550264387182e-7          , 2.14483871200574935e-7          , 1.85293782409150713e-7          , 1.6249819143612387e-7           , 1.44311679852135725e-7          , 1.29531773355855345e-7          , 1.17325896177269801e-7          , 1.07103235716982581e-7          , 9.84352384724293001e-8          , 9.10048769701201069e-8          , 8.45734447905704197e-8          , 7.89583183591552723e-8          , 7.40177486943913502e-8          , 6.96402604311719205e-8          , 6.57371322152209671e-8          , 6.22369766814224128e-8          , 5.90817757917581868e-8          , },
-/* x = 13.1        */  {0.244855102793877416            , 0.00934553654821575925          , 0.00107002154251995245          , 0.000204124522212795373         , 0.0000544590238498108444        , 0.00001862923603144176          , 7.74337273745556758e-6          , 3.76406927337400342e-6          , 2.07693925481246422e-6          , 1.26957010333161843e-6          , 8.42618371709055775e-7          , 5.97318900052163451e-7          , 4.46301682315888188e-7          , 3.47798146311973887e-7          , 2.80355699461824661e-7          , 2.3225513968967276e-7           , 1.96743462055586515e-7          , 1.69744413103468174e-7          , 1.48695566186942643e-7          , 1.31927684137152249e-7          , 1.18318666291047666e-7          , 1.07092927229368911e-7          , 9.77009636007394783e-8          , 8.9744760973656018e-8           , 8.29302725663490073e-8          , 7.70363637873134545e-8          , 7.18940430774617301e-8          , 6.73722770451138489e-8          , 6.33681149983882763e-8          , 5.9799691999413851e-8           , 5.66011909710659678e-8          , 5.37191612485318771e-8          , },
-/* x = 13.2        */  {0.243925865451385581            , 0.00923954601705257573          , 0.00104987831249849035          , 0.00019877049095813901          , 0.0000526341983147496652        , 0.0000178733781679986773        , 7.37714237312134633e-6          , 3.56258521412862104e-6          , 1.95409761417982609e-6          , 1.188221903161937e-6            , 7.85061172821776374e-7          , 5.54381948169522618e-7          , 4.12885742815042176e-7          , 3.20891756545232866e-7          , 2.58086220800734114e-7          , 2.13405272940885703e-7          , 1.80490994832785987e-7          , 1.55515213329546621e-7          , 1.36076942005766098e-7          , 1.20615365781493897e-7          , 1.08083260147589213e-7          , 9.77580480480776892e-8          , 8.9128593503236132e-8           , 8.18252087145348176e-8          , 7.55751368182283968e-8          , 7.01735040345183594e-8          , 6.54639207643382415e-8          , 6.13252501109098503e-8          , 5.76624075196263263e-8          , 5.43998496604846153e-8          , 5.14768913782835435e-8          , 4.88442869883859621e-8          , },
-/* x = 13.3        */  {0.243007127330657544            , 0.00913554333975368832          , 0.00103026148594179063          , 0.000193595223176673642         , 0.0000508831604897474145        , 0.0000171531560600861828        , 7.03045952825239639e-6          , 3.37298799465589797e-6          , 1.8391100267069249e-6           , 1.11242019716479158e-6          , 7.31634982582585447e-7          , 5.14655692661655158e-7          , 3.82052169991872235e-7          , 2.96120715803102959e-7          , 2.37622786362763636e-7          , 1.96111563725033017e-7          , 1.656001979714946e-7            , 1.42492982091167466e-7          , 1.24539893374308051e-7          , 1.10281309978012432e-7          , 9.87397699138427698e-8          , 8.92420059035070068e-8          , 8.13125204667869967e-8          , 7.46079026906446494e-8          , 6.88751209408282459e-8          , 6.39243502506134162e-8          , 5.9610851629587107e-8           , 5.58226288320996049e-8          , 5.24718562530530486e-8          , 4.9488819435705135e-8           , 4.68175615515915708e-8          , 4.44127084666473174e-8          , },
-/* x = 13.4        */  {0.242098692248834791            , 0.00903347675763890478          , 0.00101115354958226012          , 0.000188591515067132736         , 0.000049202442587977086         , 0.0000164666731037183031        , 6.70217388167007779e-6          , 3.19451926677491648e-6          , 1.73144197348807827e-6          , 1.04176751631171944e-6          , 6.8203129469326193e-7           , 4.77892278970718317e-7          , 3.53596205379972824e-7          , 2.73311978446122052e-7          , 2.18816392011270365e-7          , 1.80243703588939961e-7          , 1.51955623101264522e-7          , 1.30574307843226851e-7          , 1.13990920237675006e-7          , 1.00840296143683791e-7          , 9.02099790097170989e-8          , 8.14725756438489343e-8          , 7.41856955426214388e-8          , 6.80303054953251913e-8          , 6.27716509752624767e-8          , 5.82338352852467069e-8          , 5.42828913210571803e-8          , 5.08152659654022739e-8          , 4.77498326848460989e-8          , 4.50222518989917172e-8          , 4.25809235036291679e-8          , 4.03840381185869263e-8          , },
-/* x = 13.5        */  {0.241200369112546835            , 0.00893329622790594262          , 0.000992537693504868288         , 0.000183752500312516939         , 0.0000475887608556012774        , 0.000015812144022741756         , 6.39120833939908265e-6          , 3.02647219725199963e-6          , 1.63059718045910778e-6          , 9.75896036348916591e-7          , 6.35965392749827069e-7          , 4.43863487457862373e-7          , 3.2732967130173149e-7           , 2.52306766524414921e-7          , 2.0153050406574513e-7           , 1.6568242709342683e-7           , 1.39451709389338791e-7          , 1.19664715683855398e-7          , 1.0434466527966128e-7           , 9.22145751467919632e-8          , 8.24225683089186e-8             , 7.43839338622806754e-8          , 6.76870396182957288e-8          , 6.20354702384897567e-8          , 5.72114079564790444e-8          , 5.30518482771625485e-8          , 4.94327842870816893e-8          , 4.62584622530090803e-8          , 4.34539384270894465e-8          , 4.09598297762968179e-8          , 3.8728550756201033e-8           , 3.67215744349695797e-8          , },
-/* x = 13.6        */  {0.240311971749784688            , 0.00883495335495237983          , 0.000974397778300631719         , 0.000179071632221441246         , 0.0000460390047966960297        , 0.0000151878877974377777        , 6.0965540695536339e-6           , 2.86818778765590175e-6          , 1.53611476966477255e-6          , 9.14465294277368397e-7          , 5.9317446732769436e-7           , 4.12359144629590757e-7          , 3.03079604651613032e-7          , 2.32959376335794589e-7          , 1.85640002981975771e-7          , 1.52318566416197956e-7          , 1.27991929372993517e-7          , 1.09677889314414452e-7          , 9.55232002223453265e-8          , 8.43332105981641222e-8          , 7.53125049033708754e-8          , 6.79160890103490049e-8          , 6.17609098341284653e-8          , 5.65715390654069111e-8          , 5.21458550043166126e-8          , 4.83327873255441567e-8          , 4.50175394722808469e-8          , 4.21115629439033797e-8          , 3.9545620660219593e-8           , 3.72649006498457295e-8          , 3.52255168523597457e-8          , 3.33919650013688064e-8          , },
-/* x = 13.7        */  {0.239433318748480856            , 0.00873840132489473074          , 0.000956718303953246637         , 0.000174542666912445213         , 0.0000445502270810905894        , 0.0000145923210717000351        , 5.81726589136737381e-6          , 2.71905146797596774e-6          , 1.44756662972281653e-6          , 8.57160085403413779e-7          , 5.53415885307683154e-7          , 3.83185665190766528e-7          , 2.80687004896105356e-7          , 2.15136086028039801e-7          , 1.71030217427836906e-7          , 1.40052187597552077e-7          , 1.17488009134663176e-7          , 1.00534961175530709e-7          , 8.74553750331836287e-8          , 7.71314785034106163e-8          , 6.88204852700244766e-8          , 6.20143624392941666e-8          , 5.63566138560330579e-8          , 5.15912867988008843e-8          , 4.75308070915802257e-8          , 4.4035152636974003e-8           , 4.09980444982237509e-8          , 3.83375909916611468e-8          , 3.59898226024459743e-8          , 3.39041431790174146e-8          , 3.2040075997360733e-8           , 3.03649003870314357e-8          , },
-/* x = 13.8        */  {0.23856423330148461             , 0.00864359484311643504          , 0.000939484380357909516         , 0.000170159647475309605         , 0.0000431196340889914761        , 0.0000140239520047072752        , 5.55245799205715709e-6          , 2.57848994296161418e-6          , 1.36455498816745369e-6          , 8.03688526371167455e-7          , 5.16465598914843867e-7          , 3.56164713993088054e-7          , 2.60005686624584577e-7          , 1.98714155601888533e-7          , 1.57596040951032589e-7          , 1.28791801325270079e-7          , 1.07859216307278316e-7          , 9.21638647513657068e-8          , 8.0076224467221334e-8           , 7.0550320082778929e-8           , 6.28924279791988157e-8          , 5.66289158023427727e-8          , 5.14279676992118953e-8          , 4.7051705632682767e-8           , 4.3326039628028954e-8           , 4.012117647720753e-8            , 3.73387148309816344e-8          , 3.49029135883889748e-8          , 3.27546658101051702e-8          , 3.08472637744023111e-8          , 2.91433728872190375e-8          , 2.76128360549953032e-8          , },
-/* x = 13.9        */  {0.23770454305763765             , 0.00855049007468632202          , 0.000922681699377736262         , 0.000165916889047869905         , 0.0000417445770495392581        , 0.0000134813745355379628        , 5.30129994723092206e-6          , 2.44596827180230322e-6          , 1.28671016975311478e-6          , 7.53780270787949417e-7          , 4.82116682988240342e-7          , 3.31131977872485243e-7          , 2.4090122781184184e-7           , 1.83580911417197431e-7          , 1.45241124113898316e-7          , 1.18453641777161646e-7          , 9.90317099710091219e-8          , 8.4498743566379266e-8           , 7.3326426867817154e-8           , 6.45358430291826356e-8          , 5.74790115194304087e-8          , 5.17143206618233571e-8          , 4.69328931856275873e-8          , 4.29136271746505036e-8          , 3.94949323493027425e-8          , 3.65564865905711135e-8          , 3.40071747561571712e-8          , 3.17769389992220375e-8          , 2.98111614050091595e-8          , 2.8066720941998729e-8           , 2.6509179053236244e-8           , 2.51107397248004839e-8          , },
-/* x = 14.0        */  {0.23685407997867067             , 0.00845904458749827022          , 0.000906296508349132396         , 0.000161808964750948515         , 0.0000404225437334834298        , 0.0000129632630315088322        , 5.06301302241048521e-6          , 2.32098716329402642e-6          , 1.21368852608238673e-6          , 7.0718486515346452e-7           , 4.50177989957580642e-7          , 3.07936038214486629e-7          , 2.23250005708200878e-7          , 1.69632907985766216e-7          , 1.3387713558971857e-7           , 1.08961007607081095e-7          , 9.09379470255695017e-8          , 7.74794118835794882e-8          , 6.71518106007755073e-8          , 5.90388668973259245e-8          , 5.25352532104336847e-8          , 4.72291665187218996e-8          , 4.28330514714812071e-8          , 3.91413784683245156e-8          , 3.60041453181315839e-8          , 3.33098000530314188e-8          , 3.09739672714655169e-8          , 2.89318409387180183e-8          , 2.713294759021154e-8            , 2.55374747692317821e-8          , 2.41136532957538307e-8          , 2.28358618549077066e-8          , },
-/* x = 14.1        */  {0.236012680201655776            , 0.00836921729799136738          , 0.000890315584953010131         , 0.000157830692427866462         , 0.0000391511506629733622        , 0.0000124683672931753134        , 4.83686673495432719e-6          , 2.20308047004219264e-6          , 1.14517052309987477e-6          , 6.63670233811398938e-7          , 4.20472912879438254e-7          , 2.86437335859992279e-7          , 2.06938312963241183e-7          , 1.56775160456191792e-7          , 1.23423086280168699e-7          , 1.00243659677605362e-7          , 8.35161400989129496e-8          , 7.10508625548832014e-8          , 6.15029039079606735e-8          , 5.401450870135191e-8            , 4.80201255367483487e-8          , 4.31357038223496894e-8          , 3.90935094022913329e-8          , 3.57024689321520894e-8          , 3.28233241345647924e-8          , 3.03526448006118359e-8          , 2.82122902700277509e-8          , 2.63423079820939624e-8          , 2.46960510566931517e-8          , 2.32367592558542053e-8          , 2.19351240028006048e-8          , 2.07675271260431148e-8          , },
-/* x = 14.2        */  {0.235180183906763438            , 0.00828096841931792397          , 0.000874726213373921629         , 0.00015397712213856375          , 0.0000379281358040686134        , 0.0000119955078909232354        , 4.62217565724499845e-6          , 2.09181286654180796e-6          , 1.08085897407498189e-6          , 6.23021282566093604e-7          , 3.92838247688667067e-7          , 2.66507220671280797e-7          , 1.91861547219782555e-7          , 1.44920441763976412e-7          , 1.13804711029215822e-7          , 9.22372706144234176e-8          , 7.67097624876581751e-8          , 6.51628178765875354e-8          , 5.63345243409482382e-8          , 4.94218051485017971e-8          , 4.38962065631667716e-8          , 3.93995188271902768e-8          , 3.56824357454770468e-8          , 3.25673054277758216e-8          , 2.99248317150644311e-8          , 2.76591063253705405e-8          , 2.56977566266290067e-8          , 2.39853157328768867e-8          , 2.24786701024857393e-8          , 2.11438754029596256e-8          , 1.99538913513022583e-8          , 1.88869450011198585e-8          , },
-/* x = 14.3        */  {0.234356435190085478            , 0.00819425941183424286          , 0.000859516161674006871         , 0.000150243524361674906         , 0.0000367513517099857443        , 0.0000115435718099209666        , 4.4182964434614888e-6           , 1.98677769716319235e-6          , 1.02047740668936476e-6          , 5.85038611454096077e-7          , 3.67123146555796235e-7          , 2.4802707872516321e-7           , 1.7792346799114338e-7           , 1.33988638938689908e-7          , 1.04953902979460643e-7          , 8.48829216878428495e-8          , 7.04670960206669649e-8          , 5.97693196695789056e-8          , 5.16054042763359635e-8          , 4.52233682549782347e-8          , 4.01293613920313991e-8          , 3.59892374454977001e-8          , 3.25708246162359428e-8          , 2.97089329230267232e-8          , 2.72835042395175823e-8          , 2.52055972588919018e-8          , 2.34081760164837012e-8          , 2.18399196762791266e-8          , 2.04609774847307281e-8          , 1.92400031642516911e-8          , 1.81520475719858963e-8          , 1.71770376139540746e-8          , },
-/* x = 14.4        */  {0.233541281941297795            , 0.00810905293579612936          , 0.000844673660313163841         , 0.000146625378860991311         , 0.000035618759085335754         , 0.0000111115083819011224        , 4.22462506359871135e-6          , 1.88759498116367319e-6          , 9.63768553756445764e-7          , 5.49537327937156881e-7          , 3.43188154914462533e-7          , 2.30887530692161576e-7          , 1.65035515161467237e-7          , 1.23906163533584067e-7          , 9.68081960464343751e-8          , 7.81266429193450372e-8          , 6.47408180982720955e-8          , 5.48283551379694217e-8          , 4.72778493249815957e-8          , 4.13850713803770568e-8          , 3.66884518946265767e-8          , 3.28762555003552027e-8          , 2.97322436543685387e-8          , 2.7102798443650154e-8           , 2.48764290827117164e-8          , 2.29706477702574409e-8          , 2.13233564935301973e-8          , 1.98870668363764114e-8          , 1.86249412059459314e-8          , 1.75080305371339682e-8          , 1.65133136257445945e-8          , 1.56222833993389049e-8          , },
-/* x = 14.5        */  {0.232734575725947972            , 0.00802531280614777255          , 0.000830187381751060337         , 0.00014311836417561151          , 0.0000345284207436797477        , 0.0000106983254838120635        , 4.04059422963326932e-6          , 1.7939095628505039e-6           , 9.10492957937574842e-7          , 5.16345952495547733e-7          , 3.20904325339569615e-7          , 2.1498769550217496e-7           , 1.53116183930418483e-7          , 1.14605411575606e-7             , 8.93102913783956526e-8          , 7.19189926691581327e-8          , 5.94876244888280703e-8          , 5.03015153642564912e-8          , 4.33174267303823833e-8          , 3.78757629812503484e-8          , 3.35450721965819143e-8          , 3.00344930169644968e-8          , 2.71426047297098375e-8          , 2.4726536216174297e-8           , 2.26827427445622029e-8          , 2.09347148936434436e-8          , 1.94249240347561223e-8          , 1.8109424526696083e-8           , 1.69541616000136721e-8          , 1.59323982287203874e-8          , 1.50228907905729235e-8          , 1.42085750226572503e-8          , },
-/* x = 14.6        */  {0.231936171672163723            , 0.00794300394929886756          , 0.000816046421070541517         , 0.000139718347695750589         , 0.0000334784959326528671        , 0.000010303085984831692         , 3.86567099987528124e-6          , 1.70538939594480332e-6          , 8.60427681588412691e-7          , 4.8530540925385673e-7           , 3.00152402021673926e-7          , 2.00234513892628535e-7          , 1.42090451463700585e-7          , 1.06024268828839569e-7          , 8.24076240269955182e-8          , 6.62146732874133838e-8          , 5.46678847643635505e-8          , 4.61536835764930802e-8          , 3.96926811091389926e-8          , 3.46670056249227228e-8          , 3.06733076226570878e-8          , 2.74401704020048417e-8          , 2.47799551539660606e-8          , 2.25597720937696406e-8          , 2.06834469731771879e-8          , 1.90800090717562666e-8          , 1.76961584201770675e-8          , 1.64912246396912793e-8          , 1.54337232326240116e-8          , 1.4498958474971556e-8           , 1.36673257956480336e-8          , 1.29230902994565352e-8          , },
-/* x = 14.7        */  {0.231145928361588385            , 0.00786209236179070739          , 0.00080224027756566445          , 0.000136421376288664453         , 0.0000324672350026892464        , 9.92490442457877181e-6          , 3.69935454859793071e-6          , 1.62172395204713512e-6          , 8.13365113575499995e-7          , 4.5626809487061813e-7           , 2.80822070100490394e-7          , 1.86542126888536442e-7          , 1.31889250913231676e-7          , 9.81056575252879257e-8          , 7.60519663807975206e-8          , 6.09721797093809936e-8          , 5.02453275307307454e-8          , 4.23527505757410787e-8          , 3.6374875121211254e-8           , 3.17328380237241331e-8          , 2.80495150114936838e-8          , 2.5071604553874631e-8           , 2.2624287558819124e-8           , 2.05839455292358399e-8          , 1.88612414383250881e-8          , 1.73903363568232119e-8          , 1.61218439663488748e-8          , 1.50181220622164448e-8          , 1.40500602664822305e-8          , 1.31948467211619134e-8          , 1.24343882639872791e-8          , 1.17541749155067054e-8          , },
-/* x = 14.8        */  {0.23036370772435927             , 0.00778254507075747574          , 0.000788758837241028334         , 0.000133223667441457877         , 0.0000314929743970343449        , 9.56294390659866817e-6          , 3.54117408900664945e-6          , 1.54262274388844313e-6          , 7.69111865551963534e-7          , 4.29097019472799115e-7          , 2.62811264594414084e-7          , 1.73831304678857077e-7          , 1.22448988838688733e-7          , 9.07971210465774335e-8          , 7.01990652117927168e-8          , 5.61534781470764359e-8          , 4.6186752857123082e-8           , 3.88693549424505209e-8          , 3.33377528715284441e-8          , 2.90495580492576401e-8          , 2.56521224977203269e-8          , 2.29090231222299702e-8          , 2.06573667657892714e-8          , 1.87821475159456394e-8          , 1.7200371461517526e-8           , 1.58509548522240705e-8          , 1.46881337660439631e-8          , 1.36770659328312081e-8          , 1.27908340647699378e-8          , 1.20083649899783841e-8          , 1.13129593385202154e-8          , 1.0691235866932664e-8           , },
-/* x = 14.9        */  {0.229589374937953857            , 0.00770433009609414317          , 0.000775592356172283189         , 0.000130121600889698841         , 0.0000305541319422651482        , 9.21641319234885436e-6          , 3.39068693850493034e-6          , 1.46781395477092687e-6          , 7.27487750777631851e-7          , 4.03665013920445224e-7          , 2.46025534097247833e-7          , 1.62028921733279553e-7          , 1.13711102398488454e-7          , 8.40504433413334741e-8          , 6.480830945723255e-8            , 5.17237122774922865e-8          , 4.2461769537308291e-8           , 3.56766458503590534e-8          , 3.05573240393319818e-8          , 2.65955248679466281e-8          , 2.34614470288404256e-8          , 2.0934395295033008e-8           , 1.88625721240250179e-8          , 1.71389730600889931e-8          , 1.56864894440841901e-8          , 1.44484441063641444e-8          , 1.33824262091979045e-8          , 1.24561825737253399e-8          , 1.16448219182691235e-8          , 1.09288758708344373e-8          , 1.0292930469421409e-8           , 9.72464463906819248e-9          , },
-/* x = 15.0        */  {0.228822798329737351            , 0.00762741641424722832          , 0.000762731444680706105         , 0.000127111710702767623         , 0.0000296492024199623846        , 8.88456398197198784e-6          , 3.24747671603966802e-6          , 1.39704316626712861e-6          , 6.88324839116836781e-7          , 3.79853998149479983e-7          , 2.30377454811276463e-7          , 1.51067474351165998e-7          , 1.05621652985833072e-7          , 7.7821300138133367e-8           , 5.9842426107592504e-8           , 4.76509345539452276e-8          , 3.90425550223492089e-8          , 3.27500665078566036e-8          , 2.80116669091051779e-8          , 2.43509785045021931e-8          , 2.14595280391253247e-8          , 1.91312776367437509e-8          , 1.722475392927185e-8            , 1.56403868771802487e-8          , 1.430652875752153e-8            , 1.3170586287224306e-8           , 1.21932526715537939e-8          , 1.1344669036350843e-8           , 1.06018158832490193e-8          , 9.94670616144561034e-9          , 9.3651114341155074e-9           , 8.8456492326406721e-9           , },
-/* x = 15.1        */  {0.228063849283053361            , 0.0075517739235492552           , 0.000750167052277546739         , 0.000124190677798737736         , 0.0000287767534015003334        , 8.56668836912744767e-6          , 3.11115166207112066e-6          , 1.33007217685663867e-6          , 6.51466582350844353e-7          , 3.5755430576524084e-7           , 2.1578609085051309e-7           , 1.40884637152539545e-7          , 9.8130953266699633e-8           , 7.20689392653447086e-8          , 5.5267201798351871e-8           , 4.39058604734478023e-8          , 3.59036360537351406e-8          , 3.00671564211648679e-8          , 2.56807486386321109e-8          , 2.22978752905730952e-8          , 1.96299758436513274e-8          , 1.7484673633629927e-8           , 1.57301026619869614e-8          , 1.42736011236865111e-8          , 1.30485889721584567e-8          , 1.20062580722411838e-8          , 1.11101753586165479e-8          , 1.03326962964435897e-8          , 9.65253080961313927e-9          , 9.05305928125391757e-9          , 8.5211467463543215e-9           , 8.04629422760042993e-9          , },
-/* x = 15.2        */  {0.227312402146707067            , 0.00747737341102203401          , 0.000737890453336475963         , 0.000121355322863327206         , 0.0000279354213291466341        , 8.26211645806207057e-6          , 2.98134307241611889e-6          , 1.26667790474265735e-6          , 6.1676700440483876e-7           , 3.36664060448996609e-7          , 2.02176497082176763e-7          , 1.31422855312268093e-7          , 9.11932248338619781e-8          , 6.67558876188745874e-8          , 5.10512279104227586e-8          , 4.04616438213650659e-8          , 3.30216881983406265e-8          , 2.76073708326473249e-8          , 2.35462612470359991e-8          , 2.04197377930121701e-8          , 1.79578334439050209e-8          , 1.59809057226099954e-8          , 1.43660298960351252e-8          , 1.30269640818690341e-8          , 1.19018314018119279e-8          , 1.09453322847375812e-8          , 1.01236943845017975e-8          , 9.41132122190241025e-9          , 8.78852072275890023e-9          , 8.2399356567268196e-9           , 7.7534396879644855e-9           , 7.31934814911419797e-9          , },
-/* x = 15.3        */  {0.226568334147697597            , 0.0074041865205779353           , 0.000725893233454935599         , 0.000118602599649081746         , 0.0000271239078278037794        , 7.97021413194305371e-6          , 2.8577038378626477e-6           , 1.20665136860908003e-6          , 5.84089951515020565e-7          , 3.17088600097345701e-7          , 1.894792610808169e-7            , 1.22628969605247835e-7          , 8.47662839262787266e-8          , 6.18476825287711438e-8          , 4.71656671732107751e-8          , 3.72936710864882782e-8          , 3.03753526439400477e-8          , 2.53519158324656997e-8          , 2.15914719398604028e-8          , 1.870151794111973e-8            , 1.64294505531731473e-8          , 1.46074986896577737e-8          , 1.31210598326376831e-8          , 1.18898588134681234e-8          , 1.08563840345238769e-8          , 9.97858839591826161e-9          , 9.2251632488647117e-9           , 8.57240651677315541e-9          , 8.00210279888733277e-9          , 7.50006035163420927e-9          , 7.05508326698847002e-9          , 6.65823746763808845e-9          , },
-/* x = 15.4        */  {0.22583152530706318             , 0.00733218572255213047          , 0.000714167276467494488         , 0.000115929588632464651         , 0.0000263409762327821871        , 7.69038096225579517e-6          , 2.73990708205365435e-6          , 1.14979674055637383e-6          , 5.53308397752740735e-7          , 2.98739944942707784e-7          , 1.77630081050332959e-7          , 1.14453871574538941e-7          , 7.88112528783507436e-8          , 5.7312625467453761e-8           , 4.3584039937014896e-8           , 3.43793733965012738e-8          , 2.79450687574787902e-8          , 2.32835977738833548e-8          , 1.98010865105430086e-8          , 1.71294721860032003e-8          , 1.5032368756264028e-8           , 1.33530734235594934e-8          , 1.19847305081774502e-8          , 1.08526108865841723e-8          , 9.90325500351504382e-9          , 9.09763109126767523e-9          , 8.40671195108632098e-9          , 7.80854791709033317e-9          , 7.28628824281738876e-9          , 6.82681728179864964e-9          , 6.41979746964050579e-9          , 6.05698662619734101e-9          , },
-/* x = 15.5        */  {0.225101858358709184            , 0.00726134428450235234          , 0.000702704752076477271         , 0.000113333491007939508         , 0.000025585448319977902         , 7.42204824979159741e-6          , 2.6276448906918056e-6           , 1.09593046589457661e-6          , 5.24303801682485528e-7          , 2.81536306204537295e-7          , 1.66569376826600348e-7          , 1.06852186357968048e-7          , 7.32922951603763638e-8          , 5.31215562176713313e-8          , 4.02820284392105846e-8          , 3.16980544669519074e-8          , 2.57129210391584292e-8          , 2.13866857429235593e-8          , 1.81611246690557017e-8          , 1.56910476288213915e-8          , 1.37552168149173047e-8          , 1.22072501016132796e-8          , 1.09475038099281677e-8          , 9.90640436081192657e-9          , 9.03425382892137822e-9          , 8.29481617275966803e-9          , 7.66117704997242727e-9          , 7.11300798022389746e-9          , 6.63471944034569472e-9          , 6.21418941413247661e-9          , 5.84187223136188051e-9          , 5.51016354359602861e-9          , },
-/* x = 15.6        */  {0.224379218671095322            , 0.00719163624321610007          , 0.000691498104067157072         , 0.000110811622999448263         , 0.0000248562012257416113        , 7.16467718841906844e-6          , 2.52062712562853162e-6          , 1.04488044487728669e-6          , 4.9696551026152994e-7           , 2.65401632097642395e-7          , 1.56241931309475617e-7          , 9.97819809134430033e-8          , 6.8176372051590475e-8           , 4.92476457785319108e-8          , 3.72372975327177993e-8          , 2.92307331874759591e-8          , 2.36624992247496306e-8          , 1.96467859428580626e-8          , 1.66588062500149339e-8          , 1.43747781490700736e-8          , 1.25876152184027761e-8          , 1.11605599665047297e-8          , 1.00006835115428564e-8          , 9.0432052890981501e-9           , 8.24191973038611535e-9          , 7.56318313427414732e-9          , 6.98203804001330954e-9          , 6.47965586926728044e-9          , 6.0416128144273772e-9           , 5.6567044045767386e-9           , 5.31611560482247826e-9          , 5.01283009277579866e-9          , },
-/* x = 15.7        */  {0.223663494171664143            , 0.0071230363778683881           , 0.000680540039076700873         , 0.000108361410470915524         , 0.0000241521645445748973        , 6.91775714345277641e-6          , 2.41858031787336447e-6          , 9.96485271834294324e-7          , 4.71190206393551547e-7          , 2.50265188278136307e-7          , 1.46596559889416992e-7          , 9.32044955707280431e-8          , 6.34330191519060099e-8          , 4.56662064344189162e-8          , 3.4429330476828486e-8           , 2.69599995882525419e-8          , 2.17787703974182332e-8          , 1.80507269540734209e-8          , 1.52824473450851418e-8          , 1.31701896500399353e-8          , 1.15200891590656433e-8          , 1.02043649288151305e-8          , 9.13634061089663476e-9          , 8.25569206157491356e-9          , 7.51945637379377896e-9          , 6.89639380761142964e-9          , 6.36335947233396921e-9          , 5.90291258843325128e-9          , 5.50170686646281981e-9          , 5.14938517934663857e-9          , 4.83780665046354769e-9          , 4.56049709940701054e-9          , },
-/* x = 15.8        */  {0.222954575273898488            , 0.00705552018427612962          , 0.000669823515887835339         , 0.000105980383818556473         , 0.0000234723175935792143        , 6.68080403700698701e-6          , 2.32124663399635182e-6          , 9.50593527505077022e-7          , 4.4688139682860809e-7           , 2.36061170040955627e-7          , 1.37585805632468899e-7          , 8.7083897009167949e-8           , 5.9034141089200099e-8           , 4.23545175455019866e-8          , 3.18392785106460108e-8          , 2.48698830384998296e-8          , 2.00479620696631335e-8          , 1.65864549210994844e-8          , 1.40213654888082992e-8          , 1.20677136168913725e-8          , 1.05439891856526529e-8          , 9.33078429808921105e-9          , 8.34724531726887268e-9          , 7.53719197737213836e-9          , 6.86067247292249381e-9          , 6.28867653104628159e-9          , 5.79973830035508425e-9          , 5.37770117489492934e-9          , 5.01021493123675364e-9          , 4.68770500912516643e-9          , 4.40265261855206079e-9          , 4.1490834474536712e-9           , },
-/* x = 15.9        */  {0.222252354806900806            , 0.00698906385019806433          , 0.000659341735219868953         , 0.00010366617312883599          , 0.0000228156868333173472        , 6.4533588332545861e-6           , 2.22838291080000504e-6          , 9.07063120693074794e-7          , 4.2394893735961745e-7           , 2.22728343797270743e-7          , 1.29165658169429469e-7          , 8.13870509181676681e-8          , 5.49538229169046969e-8          , 3.92916657409537866e-8          , 2.94498230391655734e-8          , 2.29457316281608371e-8          , 1.84574552865628599e-8          , 1.52429378017700431e-8          , 1.28657931038259277e-8          , 1.10586082541280603e-8          , 9.6514188537958285e-9           , 8.53262800771515604e-9          , 7.62680509344228627e-9          , 6.88162348567974451e-9          , 6.25992771907738948e-9          , 5.73477534196556849e-9          , 5.28625597735713793e-9          , 4.89940139747299698e-9          , 4.56278221700401973e-9          , 4.26754666694786534e-9          , 4.00675003112066191e-9          , 3.7748789162916154e-9           , },
-/* x = 16.0        */  {0.221556727947392236            , 0.00692364423163179741          , 0.000649088129991271031         , 0.000101416503586926122         , 0.0000221813434354301123        , 6.23498611700474223e-6          , 2.13975975351040329e-6          , 8.65760675653624491e-7          , 4.02308592502659633e-7          , 2.10209715557061083e-7          , 1.2129529440202817e-7           , 7.60833127413541395e-8          , 5.11681568228714404e-8          , 3.64583983078914655e-8          , 2.72450493623065767e-8          , 2.11741017746134878e-8          , 1.6995686884179969e-8           , 1.40100778893337457e-8          , 1.1806798481481937e-8           , 1.01348865342366424e-8          , 8.83516875362406054e-9          , 7.80333575560398023e-9          , 6.96900821161600111e-9          , 6.28344358760815423e-9          , 5.7120835593226292e-9           , 5.22990374023592864e-9          , 4.81843487602416393e-9          , 4.46380855343817419e-9          , 4.15544674124501455e-9          , 3.88516529786583485e-9          , 3.64654930796328567e-9          , 3.43451040832816598e-9          , },
-/* x = 16.1        */  {0.220867592154034052            , 0.00685923883006202239          , 0.000639056356029476272         , 0.0000992291911214425516        , 0.0000215684009879865423        , 6.02527275947042486e-6          , 2.05516069308209545e-6          , 8.26560961898634808e-7          , 3.81881627066718078e-7          , 1.98452224323074761e-7          , 1.13936839292149704e-7          , 7.1144335037389558e-8           , 4.765508288598633e-8            , 3.38369886713806907e-8          , 2.5210330968822318e-8           , 1.9542657179026311e-8           , 1.56520601123793674e-8          , 1.28786318874943825e-8          , 1.08362136376119062e-8          , 9.2892505484608857e-9           , 8.08865634965138303e-9          , 7.13692153430145016e-9          , 6.36837233055162571e-9          , 5.73759993613736485e-9          , 5.21245838718186767e-9          , 4.76970260995998469e-9          , 4.39219863902978914e-9          , 4.0670959918440626e-9           , 3.7846038080814731e-9           , 3.53715466240509186e-9          , 3.31882261337578916e-9          , 3.1249112572895382e-9           , },
-/* x = 16.2        */  {0.220184847103978547            , 0.00679582577061636423          , 0.000629240283204961328         , 0.0000971021382721129931        , 0.0000209760133301372003        , 5.8238266655212698e-6           , 1.97438139853050329e-6          , 7.89346363350335848e-7          , 3.62594427219425199e-7          , 1.87406458468659478e-7          , 1.07055145140705827e-7          , 6.6543890111393861e-8           , 4.43942427227283186e-8          , 3.1411112954399589e-8           , 2.33322235007138155e-8          , 1.80400763325629435e-8          , 1.44168629001169743e-8          , 1.18401378814258911e-8          , 9.94656844148904038e-9          , 8.51503160461213622e-9          , 7.40587111833987753e-9          , 6.52792307118128698e-9          , 5.819897645528829e-9            , 5.23948721305975384e-9          , 4.75678674901688735e-9          , 4.35020192457303085e-9          , 4.00383610517170657e-9          , 3.70578102556911011e-9          , 3.44697370557530172e-9          , 3.22041644667070732e-9          , 3.02063462987377937e-9          , 2.84329333569874262e-9          , },
-/* x = 16.3        */  {0.219508394631560686            , 0.00673338378108750879          , 0.000619633986967933336         , 0.0000950333302678456151        , 0.0000204033725081907877        , 5.63027559711096507e-6          , 1.8972289405006438e-6           , 7.54006384006403118e-7          , 3.44378148840380951e-7          , 1.77026393324749951e-7          , 1.00617587891736849e-7          , 6.22577066818050938e-8          , 4.13668449626346436e-8          , 2.91657366922158992e-8          , 2.15983675702515798e-8          , 1.66559678416462588e-8          , 1.32811931040308665e-8          , 1.08868486053187368e-8          , 9.13103046891190217e-9          , 7.80613556595437436e-9          , 6.7813245144967124e-9           , 5.97135574216985988e-9          , 5.31902420287350303e-9          , 4.7849073996834313e-9           , 4.34118220507648757e-9          , 3.9677858941447888e-9           , 3.64996848778394027e-9          , 3.37669392493622878e-9          , 3.13957233042530082e-9          , 2.93213235995749603e-9          , 2.74931599195903342e-9          , 2.58712170582433321e-9          , },
-/* x = 16.4        */  {0.21883813866904588             , 0.00667189217178238967          , 0.000610231740267185078         , 0.0000930208313034276509        , 0.0000198497068457468023        , 5.44426606793362127e-6          , 1.82352110255400584e-6          , 7.20437187490964434e-7          , 3.27168391123964147e-7          , 1.6726914834173622e-7           , 9.45938791156873689e-8          , 5.82633194491156178e-8          , 3.85555415802200222e-8          , 2.70870108538737218e-8          , 1.99973996815898782e-8          , 1.53807929045019508e-8          , 1.22368901384487193e-8          , 1.00116704594623554e-8          , 8.38335007874207184e-9          , 7.1569929699699444e-9           , 6.21000433934101677e-9          , 5.46267056141887822e-9          , 4.86159300739540494e-9          , 4.37003359251069331e-9          , 3.96210351675488121e-9          , 3.61916124458983835e-9          , 3.32751951145241689e-9          , 3.07694971367486627e-9          , 2.85968447419741351e-9          , 2.66973876618323439e-9          , 2.50243913738927889e-9          , 2.35409158177754667e-9          , },
-/* x = 16.5        */  {0.218173985189353034            , 0.00661133081616119003          , 0.000601028005831812325         , 0.0000910627810037969175        , 0.0000193142791209943962        , 5.26546230470261263e-6          , 1.75308573690804213e-6          , 6.88541168061854514e-7          , 3.10904893550438455e-7          , 1.58094762321033486e-7          , 8.89558924344329557e-8          , 5.45399305260528294e-8          , 3.59443141919959509e-8          , 2.5162176395046972e-8           , 1.85188705728157438e-8          , 1.42057943287366022e-8          , 1.12764724371965446e-8          , 9.20810777770112949e-9          , 7.69781025624820711e-9          , 6.56251350660105956e-9          , 5.68733312103310986e-9          , 4.99771588481844869e-9          , 4.44381058435892715e-9          , 3.9913770464485765e-9           , 3.61632386120407266e-9          , 3.30132834653487463e-9          , 3.03368823969484571e-9          , 2.80392251334782198e-9          , 2.60483952941762155e-9          , 2.4309036185895676e-9           , 2.27779635555866032e-9          , 2.14210739168877522e-9          , },
-/* x = 16.6        */  {0.217515842150675703            , 0.00655168013223079358          , 0.000592017428797560992         , 0.0000891573910654954565        , 0.000018796384844732301         , 5.0935452707600875e-6           , 1.68576016159654093e-6          , 6.58226550825277962e-7          , 2.95531254488655594e-7          , 1.4946598532985968e-7           , 8.36775032503472953e-8          , 5.10682817741412495e-8          , 3.35183695014893079e-8          , 2.33794766319707525e-8          , 1.71531703526327289e-8          , 1.3122931532245344e-8           , 1.03930802452952394e-8          , 8.47021188972708388e-9          , 7.06918080676639215e-9          , 6.01804447272749377e-9          , 5.20913015302917291e-9          , 4.57270249754193895e-9          , 4.06221668790661622e-9          , 3.64575715662632571e-9          , 3.30090280137450578e-9          , 3.01155493709479117e-9          , 2.7659243504828504e-9           , 2.55522220541528177e-9          , 2.37278939584448135e-9          , 2.21350548817264218e-9          , 2.07337983272235459e-9          , 1.94926374820059981e-9          , },
-/* x = 16.7        */  {0.21686361944292757             , 0.00649292106465909116          , 0.00058319482966057929          , 0.000087302942065538062         , 0.0000182953506330790794        , 4.92821174801756083e-6          , 1.62139059623556846e-6          , 6.29407019075964291e-7          , 2.80994669826774902e-7          , 1.41348086021856009e-7          , 7.87344407332359741e-8          , 4.78305371698434976e-8          , 3.12640431431502338e-8          , 2.17280767860351261e-8          , 1.5891459859214544e-8           , 1.21248210177257227e-8          , 9.58042328216511287e-9          , 7.79253456246305657e-9          , 6.49267651979114804e-9          , 5.5193328535056839e-9           , 4.77157686711194721e-9          , 4.18417178522177246e-9          , 3.71365487542974792e-9          , 3.33027411584299464e-9          , 3.01316076405503331e-9          , 2.74735220100341308e-9          , 2.52190563850273748e-9          , 2.32867320106175004e-9          , 2.16148838722196457e-9          , 2.01561449540327381e-9          , 1.88736351208414729e-9          , 1.77382815305240567e-9          , },
-/* x = 16.8        */  {0.216217228835941802            , 0.00643503506757822378          , 0.000574555197542297261         , 0.0000854977804285119926        , 0.0000178105326692291843        , 4.76917347349938404e-6          , 1.55983163378005563e-6          , 6.02001366835040713e-7          , 2.67245690150067126e-7          , 1.33708673186541247e-7          , 7.41041511030038231e-8          , 4.4810174395229912e-8           , 2.91687112383015695e-8          , 2.01979901033983332e-8          , 1.47256077175118975e-8          , 1.12046818548955294e-8          , 8.83273285769065981e-9          , 7.17008544108442061e-9          , 5.96391895698212739e-9          , 5.06249071205307954e-9          , 4.37118524662841848e-9          , 3.82896671513124752e-9          , 3.3952456924788215e-9           , 3.04228400827951566e-9          , 2.75065580076732128e-9          , 2.50645299863819946e-9          , 2.2995175430712182e-9           , 2.12229512795890844e-9          , 1.9690749569757358e-9           , 1.83547497215064582e-9          , 1.71808660337895424e-9          , 1.61422527746312404e-9          , },
-/* x = 16.9        */  {0.215576583929356896            , 0.00637800408804642609          , 0.000566093683750046858         , 0.0000837403155432704093        , 0.0000173413152489703671        , 4.6161563270129836e-6           , 1.5009457458416675e-6           , 5.75933174800213593e-7          , 2.54237995097891889e-7          , 1.26517530442890653e-7          , 6.97656713230906613e-8          , 4.19918849139185159e-8          , 2.72207090333037816e-8          , 1.87800100040868784e-8          , 1.36481326158546647e-8          , 1.03562857445363085e-8          , 8.14471805876235249e-9          , 6.59829314333430719e-9          , 5.47890154799534622e-9          , 4.64396359708194558e-9          , 4.00476901158987658e-9          , 3.50420537812801451e-9          , 3.10436223565226552e-9          , 2.77937612159449405e-9          , 2.51116242664151394e-9          , 2.28679204766201578e-9          , 2.09683451882558448e-9          , 1.93428526045260143e-9          , 1.79385507782352157e-9          , 1.67148969649357043e-9          , 1.56403859167640845e-9          , 1.46902267449120906e-9          , },
-/* x = 17.0        */  {0.21494160010412462             , 0.00632181055013963037          , 0.000557805595618873625         , 0.0000820290170210935375        , 0.0000168871094050137327        , 4.46889956670399242e-6          , 1.4446028193104725e-6           , 5.51130508054361495e-7          , 2.41928183636105022e-7          , 1.19746463077233344e-7          , 6.56995123905759376e-8          , 3.93614818533600889e-8          , 2.54092560423361876e-8          , 1.74656477608986183e-8          , 1.26521503634238538e-8          , 9.57391127504235567e-9          , 7.51152565701356939e-9          , 6.07296969098812127e-9          , 5.03395770578625229e-9          , 4.26050170371293142e-9          , 3.66941733108684291e-9          , 3.20725686431496743e-9          , 2.83860788169682155e-9          , 2.53935227907368539e-9          , 2.29265235084151608e-9          , 2.08648788245243004e-9          , 1.91210308285947839e-9          , 1.76300253540296142e-9          , 1.63428712527385916e-9          , 1.52220555743406781e-9          , 1.42384560884583337e-9          , 1.33691779269835791e-9          , },
-/* x = 17.1        */  {0.214312194475578458            , 0.00626643733964540629          , 0.000549686390620779413         , 0.000080362412087670588         , 0.0000164473516055009112        , 4.32715510947208329e-6          , 1.39067972218216268e-6          , 5.27525634000150946e-7          , 2.30275579077172856e-7          , 1.13369156103771522e-7          , 6.18875514739387838e-8          , 3.69058150698760805e-8          , 2.37243871650350101e-8          , 1.6247075250377858e-8           , 1.17313253274049608e-8          , 8.85230201554945489e-9          , 6.9287034186865671e-9           , 5.59027798987439202e-9          , 4.62573169832313491e-9          , 3.90913354605273347e-9          , 3.36247084014924265e-9          , 2.93571926558966204e-9          , 2.59579598998254271e-9          , 2.32020801129420804e-9          , 2.09327692888524185e-9          , 1.90382643135743695e-9          , 1.74372638702563677e-9          , 1.60695301021655677e-9          , 1.48896812862450631e-9          , 1.38630051955100446e-9          , 1.29625804358353089e-9          , 1.21672617238721863e-9          , },
-/* x = 17.2        */  {0.21368828584800363             , 0.00621186778933315023          , 0.000541731670728377579         , 0.000078739083101704242         , 0.000016021502522344992         , 4.19068685342566741e-6          , 1.3390598966401271e-6           , 5.05054759100572183e-7          , 2.19242047768796905e-7          , 1.07361042697894714e-7          , 5.83129322092450683e-8          , 3.46126928236098028e-8          , 2.21568892930539607e-8          , 1.51170723565226686e-8          , 1.08798258826785707e-8          , 8.18662812022410854e-9          , 6.39216652514471357e-9          , 5.14670209499437006e-9          , 4.25115203671028297e-9          , 3.58714192140439686e-9          , 3.08149975793029825e-9          , 2.68739961666200612e-9          , 2.37393140274700713e-9          , 2.12011540295482858e-9          , 1.91135118246824783e-9          , 1.7372460662492711e-9           , 1.59025017781231419e-9          , 1.46477663261870448e-9          , 1.35662126546684676e-9          , 1.26257176946630952e-9          , 1.18013927722508849e-9          , 1.10737071653375524e-9          , },
-/* x = 17.3        */  {0.213069794670652326            , 0.00615808566477570464          , 0.000533937177020640702         , 0.0000771576651933600542        , 0.0000156090458653345302        , 4.05927003974176693e-6          , 1.28963297757843355e-6          , 4.8365778310907516e-7           , 2.08791830453482423e-7          , 1.01699182218600162e-7          , 5.49599725204557084e-8          , 3.24708095371079278e-8          , 2.06982429597643575e-8          , 1.40689786430194614e-8          , 1.00922835380314996e-8          , 7.5724511461641016e-9           , 5.89816683772981437e-9          , 4.73902002021526884e-9          , 3.9074071607485213e-9           , 3.29204196537744843e-9          , 2.82428392208337909e-9          , 2.46029560288390088e-9          , 2.17119358318994698e-9          , 1.93740746525757346e-9          , 1.7453392462852711e-9           , 1.58532399197522288e-9          , 1.45035001864453164e-9          , 1.33523520354117354e-9          , 1.23608448696904544e-9          , 1.1499249367514456e-9           , 1.07445544285259301e-9          , 1.00787193839227172e-9          , },
-/* x = 17.4        */  {0.212456642995150194            , 0.00610507515069878653          , 0.000526298784519078655         , 0.0000756168440161773237        , 0.00001520948727818445          , 3.93269065147234604e-6          , 1.24229443487854594e-6          , 4.63278069568927867e-7          , 1.98891385376767542e-7          , 9.63621470972023188e-8          , 5.18140793800125441e-8          , 3.04696791539613765e-8          , 1.93405686241006935e-8          , 1.30966489419571785e-8          , 9.36375543133437631e-9          , 7.00569181282440771e-9          , 5.44326476365371019e-9          , 4.36427887293577332e-9          , 3.5919232221363374e-9           , 3.02156111484588963e-9          , 2.58879457059144169e-9          , 2.25257887850119496e-9          , 1.98592124577999594e-9          , 1.770563897634836e-9            , 1.59384111397786688e-9          , 1.44676385524448139e-9          , 1.3228196607776157e-9           , 1.21720142525304906e-9          , 1.12630017145144177e-9          , 1.04736429167599587e-9          , 9.78266114553914702e-10         , 9.17339096706358396e-10         , },
-/* x = 17.5        */  {0.21184875443424243             , 0.00605282083783573922          , 0.000518812497243304577         , 0.0000741153536064275842        , 0.0000148223532929553043        , 3.81074484700115139e-6          , 1.1969452378701493e-6           , 4.43862231450128602e-7          , 1.8950924229127112e-7           , 9.13299179255476922e-8          , 4.88616699722276096e-8          , 2.85995736531239995e-8          , 1.80765772132689192e-8          , 1.21944125364080903e-8          , 8.68968991215938915e-9          , 6.4826004541480705e-9           , 5.02430350060429621e-9          , 4.01977211321434163e-9          , 3.3023437830017754e-9           , 2.77362081181788205e-9          , 2.3731777172416452e-9           , 2.06257985284193243e-9          , 1.81659834613609361e-9          , 1.61819811481955413e-9          , 1.45558056683083503e-9          , 1.32038446335060281e-9          , 1.20656045924116929e-9          , 1.10964893663834727e-9          , 1.02630571307626519e-9          , 9.53983831083065648e-10         , 8.90715842184601576e-10         , 8.34962137594882232e-10         , },
-/* x = 17.6        */  {0.211246054121830035            , 0.00600130771026619623          , 0.000511474443475530141         , 0.0000726519743442534934        , 0.0000144471903394842817        , 3.69323842600655672e-6          , 1.15349154051546549e-6          , 4.25359930874241841e-7          , 1.80615866567780938e-7          , 8.65837861285379933e-8          , 4.60900987646160024e-8          , 2.68514663104885643e-8          , 1.68995245799289315e-8          , 1.13570356412069517e-8          , 8.06589495411503147e-9          , 5.99972993584083308e-9          , 4.6383854569127056e-9           , 3.70301875427217888e-9          , 3.03651126340305888e-9          , 2.54631979597086905e-9          , 2.17573898054333252e-9          , 1.8887738146175581e-9           , 1.66184130968228437e-9          , 1.47904542636261956e-9          , 1.32939417929842418e-9          , 1.20510951300807377e-9          , 1.10057173964980608e-9          , 1.01164324641196404e-9          , 9.35224960935211188e-10         , 8.68959171749103678e-10         , 8.11026454700526386e-10         , 7.60004369573679583e-10         , },
-/* x = 17.7        */  {0.210648468674248853            , 0.00595052113321826427          , 0.000504280871224081785         , 0.0000712255310112460826        , 0.0000140835638066786716        , 3.57998632592684858e-6          , 1.11184438595756299e-6          , 4.07723691953410012e-7          , 1.7218353268371598e-7           , 8.21062636532646101e-8          , 4.34875900314808792e-8          , 2.52169793323020902e-8          , 1.5803169557778068e-8           , 1.05796869109278879e-8          , 7.48850916094487299e-9          , 5.55391082965527819e-9          , 4.28285066163020212e-9          , 3.41174433718057066e-9          , 2.79244998598066396e-9          , 2.33791884699661293e-9          , 1.99492973828427784e-9          , 1.72976827604663623e-9          , 1.52038738905087258e-9          , 1.351952265810305e-9            , 1.21422130495705837e-9          , 1.09995823856755343e-9          , 1.00394203020736599e-9          , 9.22333483146495165e-10         , 8.52260431509965121e-10         , 7.91540177922698959e-10         , 7.38490062142225135e-10         , 6.91795804889018769e-10         , },
-/* x = 17.8        */  {0.210055926152746031            , 0.00590044684131479675          , 0.000497228143876548409         , 0.0000698348909394234586        , 0.0000137310571527162162        , 3.47081214705559073e-6          , 1.07191942916698265e-6          , 3.90908725839996038e-7          , 1.64186206413849018e-7          , 7.78809991508010615e-8          , 4.10431754100647372e-8          , 2.36883355152933696e-8          , 1.47817353254166286e-8          , 9.85790572664326378e-9          , 6.95397515034979209e-9          , 5.14222865430416986e-9          , 3.95525699484589163e-9          , 3.14386352705053091e-9          , 2.56835067920935556e-9          , 2.14682685010760203e-9          , 1.82933449121575718e-9          , 1.58429142901490227e-9          , 1.39108405002037286e-9          , 1.23586637595509143e-9          , 1.10909495513971275e-9          , 1.00403689704860677e-9          , 9.15841080970882632e-10         , 8.40944888329810558e-10         , 7.76686224472585873e-10         , 7.21044256405108739e-10         , 6.72462692724322809e-10         , 6.29727106440117072e-10         , },
-/* x = 17.9        */  {0.209468356027110429            , 0.00585107092724524393          , 0.000490312736033660197         , 0.0000684789622468604538        , 0.0000133892710613778335        , 3.36554770451686491e-6          , 1.03363667650806638e-6          , 3.74872767148271659e-7          , 1.56599435098528975e-7          , 7.38927001669903633e-8          , 3.87466361026837801e-8          , 2.22583136161905534e-8          , 1.38298738121688591e-8          , 9.18757303372860065e-9          , 6.45901511770767164e-9          , 4.76200300884874035e-9          , 3.65336208317244072e-9          , 2.89746419128360253e-9          , 2.36255631279856189e-9          , 1.971588069184615e-9            , 1.67765932964978804e-9          , 1.451181615053177e-9            , 1.27287929470807369e-9          , 1.12982786494764646e-9          , 1.01313349038552543e-9          , 9.16531014864613776e-10         , 8.35512599479266189e-10         , 7.66771985353730028e-10         , 7.07841578148535714e-10         , 6.5685025859578108e-10          , 6.12358507274120412e-10         , 5.7324408511127855e-10          , },
-/* x = 18.0        */  {0.208885689140415294            , 0.00580237983084543193          , 0.000483531229515459752         , 0.0000671566921554876124        , 0.0000130578226419074604        , 3.26403260548395642e-6          , 9.9692024112718911e-7           , 3.59575920969687383e-7          , 1.49400245411127726e-7          , 7.01270608956794085e-8          , 3.65884493686998926e-8          , 2.09202071388329199e-8          , 1.29426329013456814e-8          , 8.56488452191470571e-9          , 6.00060839852734516e-9          , 4.41076843923834392e-9          , 3.37510671865766759e-9          , 2.67079283252751116e-9          , 2.17354914982639618e-9          , 1.8108705221906675e-9           , 1.53872140613120567e-9          , 1.32937771962963345e-9          , 1.16481283887115583e-9          , 1.03296105568026066e-9          , 9.25533052007211737e-10         , 8.3669832787890963e-10          , 7.62267638253104519e-10         , 6.99172363408386418e-10         , 6.45125006743017349e-10         , 5.98392934434426679e-10         , 5.57644538525515157e-10         , 5.21842697370661003e-10         , },
-/* x = 18.1        */  {0.208307857674833271            , 0.00575436032856844537          , 0.000476880309531762077         , 0.0000658670653868304264        , 0.0000127363446699520453        , 3.16611385011103486e-6          , 9.61698113140122588e-7          , 3.44980519758912926e-7          , 1.42567048089357684e-7          , 6.6570695082047925e-8           , 3.45597389781758242e-8          , 1.96677862705178611e-8          , 1.21154262064354991e-8          , 7.9863259561309873e-9           , 5.57597086371798121e-9          , 4.08625689223413584e-9          , 3.1185996715555932e-9           , 2.46224126001074138e-9          , 1.99993891026050306e-9          , 1.66345536272632254e-9          , 1.41143932589449839e-9          , 1.21791040919140045e-9          , 1.0660080675769194e-9           , 9.44467057790487165e-10         , 8.45560667602407715e-10         , 7.63862352584868525e-10         , 6.95478575493993297e-10         , 6.3756102077999744e-10          , 5.87988966683815518e-10         , 5.45157888177672571e-10         , 5.07835907556269179e-10         , 4.75064497568692886e-10         , },
-/* x = 18.2        */  {0.207734795118485443            , 0.00570699952333056752          , 0.000470356761009310901         , 0.0000646091026316969438        , 0.0000124244848672827708        , 3.07164545474613148e-6          , 9.2790194366543119e-7           , 3.31050989419364134e-7          , 1.36079549134744809e-7          , 6.32110736951898562e-8          , 3.26522293248037442e-8          , 1.8495262720745265e-8           , 1.1344005214049179e-8           , 7.44865048256809052e-9          , 5.1825359957029523e-9           , 3.7863816233416109e-9           , 2.88210377851205928e-9          , 2.27033439299854329e-9          , 1.84045194970324272e-9          , 1.52822718003486265e-9          , 1.29482437460463361e-9          , 1.11589413662195049e-9          , 9.75664700247057438e-10         , 8.63616997949631993e-10         , 7.7254797027147592e-10          , 6.97406531800860987e-10         , 6.34573635606948631e-10         , 5.81405217071903771e-10         , 5.35935004208893605e-10         , 4.9667699049878998e-10          , 4.62491474002132656e-10         , 4.32492503526898677e-10         , },
-/* x = 18.3        */  {0.20716643623328766             , 0.00566028483471697171          , 0.000463957465068426766         , 0.0000633818590900447632        , 0.0000121219052181370996        , 2.98048809608574863e-6          , 8.95466841815511976e-7          , 3.17753723964649155e-7          , 1.29918667021154118e-7          , 6.00364670181454478e-8          , 3.08582029193788769e-8          , 1.73972572352857869e-8          , 1.06244336042643849e-8          , 6.9488577489375139e-9           , 4.81793750616984323e-9          , 3.50922243670570603e-9          , 2.66402319787924245e-9          , 2.09371909930378109e-9          , 1.69392136557747883e-9          , 1.40416513745546731e-9          , 1.18797250997996207e-9          , 1.02251984736835606e-9          , 8.93052102222478076e-10         , 7.89745849850133889e-10         , 7.05885476706548625e-10         , 6.3676890336405108e-10          , 5.79031900985518906e-10         , 5.30219788435406801e-10         , 4.88509340668053579e-10         , 4.52524205535039368e-10         , 4.21209880630347258e-10         , 3.93747437785643978e-10         , },
-/* x = 18.4        */  {0.206602717023758925            , 0.00561420398953255982          , 0.000457679395642308584         , 0.0000621844230774679163        , 0.0000118282813201508646        , 2.89250877501723325e-6          , 8.64331183817010003e-7          , 3.05056968176563381e-7          , 1.24066455487088399e-7          , 5.70358908303506838e-8          , 2.91704610068767763e-8          , 1.63687695766525728e-8          , 9.9530635744405313e-9           , 6.48417469123412117e-9          , 4.47999336792727306e-9          , 3.25301214527970912e-9          , 2.46289173315416738e-9          , 1.93115398017635598e-9          , 1.55927795061344664e-9          , 1.29033487633423648e-9          , 1.09005705036515216e-9          , 9.37048324493848245e-10         , 8.17503185587985091e-10         , 7.22246810539720269e-10         , 6.45017374232859497e-10         , 5.81437244940556852e-10         , 5.2837877087964066e-10          , 4.8356288404954706e-10          , 4.45298855954550683e-10         , 4.12311795266624069e-10         , 3.83625956443836872e-10         , 3.58484310311859403e-10         , },
-/* x = 18.5        */  {0.206043574706758025            , 0.00556874501268400982          , 0.000451519616232496419         , 0.0000610159146949410844        , 0.0000115433017679709627        , 2.80758049897504578e-6          , 8.34436433488203593e-7          , 2.92930707721207463e-7          , 1.1850603151773355e-7           , 5.4199056382148642e-8           , 2.75822870702392866e-8          , 1.54051507787312006e-8          , 9.32651400672559512e-9          , 6.05203785151808873e-9          , 4.16669114402750813e-9          , 3.01612414904938219e-9          , 2.27736213401514197e-9          , 1.78150002055484027e-9          , 1.43554192047158958e-9          , 1.18588111879670864e-9          , 1.00032199921894708e-9          , 8.58804116378546907e-10         , 7.48408847089376273e-10         , 6.60566174514901011e-10         , 5.89436771357560882e-10         , 5.30944652285132116e-10         , 4.82181827150571433e-10         , 4.41032085865126785e-10         , 4.05927434070577792e-10         , 3.75686867028441601e-10         , 3.49407445748850258e-10         , 3.2638931158673705e-10          , },
-/* x = 18.6        */  {0.20548894768211595             , 0.00552389621837972711          , 0.000445475276794330106         , 0.0000598754845586437945        , 0.0000112666675677528276        , 2.72558198171166865e-6          , 8.05726973352875821e-7          , 2.81346566222742233e-7          , 1.13221508151606421e-7          , 5.15163238837616812e-8          , 2.6087413002421971e-8           , 1.45020774986421175e-8          , 8.74165033245683016e-9          , 5.65007710242059498e-9          , 3.87617450709627537e-9          , 2.79706103775315498e-9          , 2.10619629217669849e-9          , 1.6437120306574309e-9           , 1.32181534869987798e-9          , 1.09002090861615227e-9          , 9.18075949856325754e-10         , 7.87169995772439121e-10         , 6.85212895613985526e-10         , 6.04198661324051829e-10         , 5.38681370453113315e-10         , 4.84865512119030426e-10         , 4.4004707034128847e-10          , 4.02260877062195384e-10         , 3.70052638092637782e-10         , 3.42328233061982068e-10         , 3.18252033582858102e-10         , 2.97176987827411924e-10         , },
-/* x = 18.7        */  {0.204938775504132952            , 0.00547964620163499556          , 0.000439543610746547284         , 0.000058762312586861448         , 0.0000109980915808532586        , 2.64639735945350433e-6          , 7.78149945718456752e-7          , 2.70277708829456488e-7          , 1.08197931773357812e-7          , 4.89786592521074245e-8          , 2.46799877452346506e-8          , 1.36555283029856291e-8          , 8.19556595856696082e-9          , 5.27610066432911461e-9          , 3.60673085076526632e-9          , 2.59444413245795693e-9          , 1.94825625636180563e-9          , 1.51683081127471796e-9          , 1.21727524803074852e-9          , 1.00203743472921286e-9          , 8.4268651968380127e-10          , 7.21581903443067325e-10         , 6.27407425930127295e-10         , 5.52683156379427652e-10         , 4.92329524908234372e-10         , 4.42811834284447864e-10         , 4.01615492787211415e-10         , 3.6691542779296981e-10          , 3.37362684768668595e-10         , 3.11943553838207909e-10         , 2.89884640593292312e-10         , 2.70587672671810079e-10         , },
-/* x = 18.8        */  {0.204392998853910345            , 0.00543598383007019475          , 0.000433721932099456437         , 0.0000576756068411239353        , 0.0000107372979951288651        , 2.56991592247706298e-6          , 7.51655103091103054e-7          , 2.59698751839418131e-7          , 1.03421223578964201e-7          , 4.65775938781961018e-8          , 2.33545482091358495e-8          , 1.28617617385541183e-8          , 7.68556513203528533e-9          , 4.92808131060276971e-9          , 3.35677990329938271e-9          , 2.40700388759213049e-9          , 1.80249599715792694e-9          , 1.39997598095727651e-9          , 1.1211672423214544e-9           , 9.21274386799888844e-10         , 7.7357526763238491e-10          , 6.61524333795473113e-10         , 5.7452859922838701e-10          , 5.05598828272857e-10            , 4.49996646452294859e-10         , 4.04429911009161059e-10         , 3.66559958490670791e-10         , 3.34691669622009565e-10         , 3.07573691675333345e-10         , 2.84266739448830011e-10         , 2.64054962905930276e-10         , 2.46385151995844536e-10         , },
-/* x = 18.9        */  {0.203851559512488303            , 0.00539289823599049261          , 0.000428007632696396697         , 0.0000566146024188968472        , 0.0000104840218223437901        , 2.49603186120136103e-6          , 7.26194667342124532e-7          , 2.49585677983199865e-7          , 9.88781249223633317e-8          , 4.43051871957013918e-8          , 2.21059923025307517e-8          , 1.21172960494836443e-8          , 7.20914712845131719e-9          , 4.60414366477827777e-9          , 3.12486326101453624e-9          , 2.23357108166025188e-9          , 1.6679538584339624e-9           , 1.29233940861525739e-9          , 1.03279977827698356e-9          , 8.4713079665567095e-10          , 7.10213052563680878e-10         , 6.06526123609705982e-10         , 5.26152794511992787e-10         , 4.62561589163376867e-10         , 4.11331931428959864e-10         , 3.69397274004100621e-10         , 3.34582362210187878e-10         , 3.05312632658093325e-10         , 2.80427172315637645e-10         , 2.59055585696489839e-10         , 2.40535234746795519e-10         , 2.24354540658478751e-10         , },
-/* x = 19.0        */  {0.203314400334762091            , 0.00535037880873593826          , 0.000422398179563457296         , 0.0000555785603952854985        , 0.0000102380084202779198        , 2.42464402594904581e-6          , 7.01723197078999123e-7          , 2.39915756989196088e-7          , 9.45561462736948433e-8          , 4.21539918477703965e-8          , 2.09295539123710597e-8          , 1.14188904137435522e-8          , 6.76399165996222195e-9          , 4.30255250161890214e-9          , 2.90963476595192342e-9          , 2.07306873092285557e-9          , 1.54374563739661198e-9          , 1.19317919990923494e-9          , 9.51538830507525143e-10         , 7.79056323453714809e-10         , 6.52115794135726579e-10         , 5.56156608474408479e-10         , 4.81893098075323607e-10         , 4.23220867785586704e-10         , 3.76015377589087041e-10         , 3.37419922745473618e-10         , 3.05411042696891762e-10         , 2.78526021720999891e-10         , 2.5568775676625596e-10          , 2.3608962363524532e-10          , 2.19118193603742273e-10         , 2.04300351902395029e-10         , },
-/* x = 19.1        */  {0.2027814652241502              , 0.0053084151872913701           , 0.000416891112362676649         , 0.0000545667668113487152        , 9.99901303820886608e-6          , 2.35565569958160923e-6          , 6.78197462710350241e-7          , 2.30667471083042692e-7          , 9.04435195388303164e-8          , 4.01170212643401331e-8          , 1.98207796900560271e-8          , 1.076352758190718e-8            , 6.34794540632311116e-9          , 4.02170197109307553e-9          , 2.70985165856520277e-9          , 1.92450466586566981e-9          , 1.42905824030139975e-9          , 1.10181419025193451e-9          , 8.76803057499879951e-10         , 7.16546944114483366e-10         , 5.98840600998496274e-10         , 5.10022114623456902e-10         , 4.4139610121692024e-10          , 3.87256667341338146e-10         , 3.43755065516246054e-10         , 3.08229799685177043e-10         , 2.78798427267584701e-10         , 2.54102010022505119e-10         , 2.33141117510876647e-10         , 2.1516816324077684e-10          , 1.99615229551925129e-10         , 1.86044741893851813e-10         , },
-/* x = 19.2        */  {0.202252699107988929            , 0.00526699725314602036          , 0.000411484040944174855         , 0.0000535785317067481153        , 9.76680038451797291e-6          , 2.28897438226341429e-6          , 6.55576328727888272e-7          , 2.2182044509676823e-7           , 8.65291535079394771e-8          , 3.81877194762584268e-8          , 1.87755075078714216e-8          , 1.01483978103815712e-8          , 5.9590095805241827e-9           , 3.76010567100148558e-9          , 2.52436644193730702e-9          , 1.78696471535245788e-9          , 1.32314386534579879e-9          , 1.01761890129593331e-9          , 8.08059369758076685e-10         , 6.59141013916700947e-10         , 5.49982234273536873e-10         , 4.67762756733528406e-10         , 4.04338978981619803e-10         , 3.54376883008473181e-10         , 3.14284681113299961e-10         , 2.81582490310004612e-10         , 2.5451888695736235e-10          , 2.31831230783663634e-10         , 2.12592081938905699e-10         , 1.96108513642450621e-10         , 1.81854702037944418e-10         , 1.69425913480913764e-10         , },
-/* x = 19.3        */  {0.201728047913628923            , 0.00522611512339314081          , 0.000406174642992894682         , 0.0000526131881945799407        , 9.54114421524279499e-6          , 2.22451158765537453e-6          , 6.3382064275962232e-7           , 2.13355380885683729e-7          , 8.28025922175533085e-8          , 3.63599330054587569e-8          , 1.77898464615548745e-8          , 9.57088398976565125e-9          , 5.59532844758838737e-9          , 3.51638750005211032e-9          , 2.3521193993188796e-9           , 1.65960644799350472e-9          , 1.22531466839638394e-9          , 9.4001892148659181e-10          , 7.44818874723639565e-10         , 6.06415665209234139e-10         , 5.05169877084505317e-10         , 4.29049514838510152e-10         , 3.70426825138800787e-10         , 3.2431485605046138e-10          , 2.87361257685840899e-10         , 2.57255127950983883e-10         , 2.32366783362744867e-10         , 2.11522948977389944e-10         , 1.93862914664720745e-10         , 1.78744363942768298e-10         , 1.65680408935883508e-10         , 1.54296664699240099e-10         , },
-/* x = 19.4        */  {0.201207458545210142            , 0.00518575914406039628          , 0.000400960661765835642         , 0.0000516700915763508318        , 9.32182694246623412e-6          , 2.16218264988222085e-6          , 6.1289313097779616e-7           , 2.05253995771788963e-7          , 7.92539760260540246e-8          , 3.46278846823963949e-8          , 1.6860158304113227e-8           , 9.02854787681545023e-9          , 5.25517872167054274e-9          , 3.28927322875838328e-9          , 2.19213171161180545e-9          , 1.54165342450525931e-9          , 1.13493787097228715e-9          , 8.68486674642968529e-10         , 6.86633166148597976e-10         , 5.57983514988655362e-10         , 4.6406418346956861e-10          , 3.93581565884381855e-10         , 3.39390220801291823e-10         , 2.96827143559789561e-10         , 2.62763118076593101e-10         , 2.35044485046772291e-10         , 2.12154689985749737e-10         , 1.93003396992433995e-10         , 1.76791754346535378e-10         , 1.62924310098304626e-10         , 1.50950194068599894e-10         , 1.40523068872327229e-10         , },
-/* x = 19.5        */  {0.200690878861092613            , 0.00514591988366217419          , 0.000395839903915864181         , 0.0000507486184951667028        , 9.10863926149608782e-6          , 2.10190654065757167e-6          , 5.92758299472148547e-7          , 1.9749896475175477e-7           , 7.58740052168417047e-8          , 3.29861492529952284e-8          , 1.59830402048054941e-8          , 8.5191173456774437e-9           , 4.93695977259195215e-9          , 3.07758273064881366e-9          , 2.04349912584674096e-9          , 1.43238991871949786e-9          , 1.05143127335408622e-9          , 8.02537543620250615e-10         , 6.33090928390094879e-10         , 5.13489654639447162e-10         , 4.26354582344701746e-10         , 3.61083847606094881e-10         , 3.1098301609146176e-10          , 2.71691484733864307e-10         , 2.40287999051193621e-10         , 2.1476523420547221e-10          , 1.93711772435487475e-10         , 1.76114259476558075e-10         , 1.61231191069631357e-10         , 1.48510514653177336e-10         , 1.37534680642112605e-10         , 1.27983274350610197e-10         , },
-/* x = 19.6        */  {0.200178257651921216            , 0.00510658812696534022          , 0.000390810237398370946         , 0.0000498481661253054883        , 8.90137979584843959e-6          , 2.0436056959886829e-6           , 5.73382341224385849e-7          , 1.90073866225444628e-7          , 7.2653905956685786e-8           , 3.14296306475528508e-8          , 1.51553087353040193e-8          , 8.04047458065810699e-9          , 4.63918457845790434e-9          , 2.88022282096584178e-9          , 1.90538612975742647e-9          , 1.33115606845353972e-9          , 9.74259138838600019e-10         , 7.41726318930795665e-10         , 5.83814828647735656e-10         , 4.72608897458663487e-10         , 3.91756814318909832e-10         , 3.31304834374711545e-10         , 2.84980306084846578e-10         , 2.48704946281415445e-10         , 2.19751341725508044e-10         , 1.96248363902124581e-10         , 1.7688231325055467e-10          , 1.60711293946244565e-10         , 1.47046971618796952e-10         , 1.35377487313388155e-10         , 1.25316119181206392e-10         , 1.1656641302211682e-10          , },
-/* x = 19.7        */  {0.199669544619303561            , 0.00506775486896033478          , 0.000385869589457224196         , 0.0000489681513964403544        , 8.6998547591043519e-6           , 1.98720585191797338e-6          , 5.54733048343317039e-7          , 1.82963131017566133e-7          , 6.95853984490476173e-8          , 2.99535407934719194e-8          , 1.43739849925114365e-8          , 7.59064513887625114e-9          , 4.36047136606948998e-9          , 2.69618065433302991e-9          , 1.77702059126842479e-9          , 1.23734342070478294e-9          , 9.02928418041431476e-10         , 6.85643944780491567e-10         , 5.38458672494957712e-10         , 4.35043261708060009e-10         , 3.60010681106560136e-10         , 3.040145064556623e-10           , 2.6117658392328954e-10          , 2.27682231104877115e-10         , 2.00984733271912524e-10         , 1.79339735007813266e-10         , 1.61524368385345319e-10         , 1.46663074959579465e-10         , 1.34116821110685269e-10         , 1.23410975438913435e-10         , 1.14187339590863494e-10         , 1.06171607716416298e-10         , },
-/* x = 19.8        */  {0.199164690355080809            , 0.00502941130902985074          , 0.000381015944686637192         , 0.0000481080102508703667        , 8.50387763276194769e-6          , 1.93263588879136593e-6          , 5.36779729242060277e-7          , 1.76151994480488518e-7          , 6.6660667133532563e-8           , 2.8553379862389275e-8           , 1.36362807743928774e-8          , 7.16778781673768045e-9          , 4.09953588549314067e-9          , 2.52451763681541002e-9          , 1.65768882511560078e-9          , 1.150390838608943e-9            , 8.36985284783811946e-10         , 6.3391453733402814e-10          , 4.96704800183149118e-10         , 4.00519668872177715e-10         , 3.30877989054965935e-10         , 2.79002495752912209e-10         , 2.39384055503458211e-10         , 2.08454135813569183e-10         , 1.8383448645958262e-10          , 1.63898765582860316e-10         , 1.47508543567868593e-10         , 1.33849850748958474e-10         , 1.22329370498849399e-10         , 1.12506954520104442e-10         , 1.04050797910300057e-10         , 9.67070695224753439e-11         , },
-/* x = 19.9        */  {0.198663646321172061            , 0.00499154884530766382          , 0.000376247343165727393         , 0.0000472671969322008985        , 8.31326885925540412e-6          , 1.87982768357430733e-6          , 5.19493130459200383e-7          , 1.69626451480613056e-7          , 6.38723327931655896e-8          , 2.72249178503168255e-8          , 1.29395857315279979e-8          , 6.77018525931865801e-9          , 3.85518426942522026e-9          , 2.36436381141771706e-9          , 1.54673105193650736e-9          , 1.06978074032546094e-9          , 7.7601195750964627e-10          , 5.86192652176205005e-10         , 4.58261703139743906e-10         , 3.68787838566963738e-10         , 3.04140669922266785e-10         , 2.56076392603205288e-10         , 2.19431101525941198e-10         , 1.90866143906080054e-10         , 1.68160344783427006e-10         , 1.49797232492024009e-10         , 1.34716879796177304e-10         , 1.2216250221085501e-10          , 1.11583180411850699e-10         , 1.02570709604776938e-10         , 9.48177091828259195e-11         , 8.80892768579651598e-11         , },
-/* x = 20.0        */  {0.198166364829973654            , 0.00495415906922050079          , 0.000371561878662696998         , 0.0000464451833039965638        , 8.12785554935883771e-6          , 1.82871596976517752e-6          , 5.02845362844862854e-7          , 1.63373214084019464e-7          , 6.12134264409463349e-8          , 2.59641773968412284e-8          , 1.22814554229386195e-8          , 6.39623525648181131e-9          , 3.62630643191607756e-9          , 2.21491267938658453e-9          , 1.44353721802498061e-9          , 9.95035642507146998e-10         , 7.19623782382074977e-10         , 5.42160779904247911e-10         , 4.22861841855252976e-10         , 3.39618363155145057e-10         , 2.79599063515302485e-10         , 2.35060199542221102e-10         , 2.01160873946923738e-10         , 1.7477714262932526e-10          , 1.53834302028493235e-10         , 1.36918179423940267e-10         , 1.23041838204559895e-10         , 1.11501595060077915e-10         , 1.01785852646643187e-10         , 9.35159994605025961e-11         , 8.64072586432773836e-11         , 8.02422288700340642e-11         , },
-/* x = 20.1        */  {0.1976727990252954              , 0.00491723376020613131          , 0.000366957696905708259         , 0.0000456414581970054575        , 7.94747120323672388e-6          , 1.7792382044828013e-6           , 4.86809831850470435e-7          , 1.57379671769507783e-7          , 5.86773648661869149e-8          , 2.47674177563003678e-8          , 1.16596002101443835e-8          , 6.04444267390868867e-9          , 3.41186996462679278e-9          , 2.07541642273052362e-9          , 1.3475431465627206e-9           , 9.25714983293933524e-10         , 6.67466556224108694e-10         , 5.01527050584398437e-10         , 3.9025964797390984e-10          , 3.12800946595320755e-10         , 2.57070348142157704e-10         , 2.15792919202131745e-10         , 1.84430015019624261e-10         , 1.60058252586575174e-10         , 1.40739526111101081e-10         , 1.25154921829382668e-10         , 1.12385375407854386e-10         , 1.01776516783918227e-10         , 9.28532214232023069e-11         , 8.52642960004915861e-11         , 7.87458841324933792e-11         , 7.30967664223713035e-11         , },
-/* x = 20.2        */  {0.197182902863816483            , 0.00488076488060115409          , 0.000362432993917663484         , 0.0000448555267836252454        , 7.77195544444354478e-6          , 1.73133444233005927e-6          , 4.71361171677553055e-7          , 1.51633854008680227e-7          , 5.62579277295221505e-8          , 2.36311198402071294e-8          , 1.10718749283769042e-8          , 5.71341197124768457e-9          , 3.21091449210861917e-9          , 1.94518149616848882e-9          , 1.25822699354061058e-9          , 8.61412201860623171e-10         , 6.19214069311158108e-10         , 4.64023129449497199e-10         , 3.60229694881778991e-10         , 2.88142793393992374e-10         , 2.36387106060821086e-10         , 1.98127264628344895e-10         , 1.69107488156195539e-10         , 1.4659176013664031e-10          , 1.28769377943405045e-10         , 1.14410140141542487e-10         , 1.02658101230448913e-10         , 9.2904690784783704e-11          , 8.47086172191725986e-11         , 7.77440921778293907e-11         , 7.17666232916683989e-11         , 6.65899545367139008e-11         , },
-/* x = 20.3        */  {0.196696631097044347            , 0.00484474457069222137          , 0.000357986014412229187         , 0.0000440869099783494287        , 7.60115376621396243e-6          , 1.68494721565927427e-6          , 4.56475183056475131e-7          , 1.46124395063424879e-7          , 5.39492361032573049e-8          , 2.25519722560652112e-8          , 1.05162692784756749e-8          , 5.40184026327247694e-9          , 3.02254645064385123e-9          , 1.82356455928496727e-9          , 1.1751059837824509e-9           , 8.01752053462178974e-10         , 5.74565849709382721e-10         , 4.29402287716330544e-10         , 3.32565022437067964e-10         , 2.65467134754800614e-10         , 2.17396012224399365e-10         , 1.81928481331866115e-10         , 1.55073510791715104e-10         , 1.34270143509866255e-10         , 1.17826516892539514e-10         , 1.04595053413985874e-10         , 9.37785114528736413e-11         , 8.48108607851155978e-11         , 7.72821966515947823e-11         , 7.08902721678397259e-11         , 6.54085196742840913e-11         , 6.06645207144019668e-11         , },
-/* x = 20.4        */  {0.196213939253760549            , 0.00480916514392470485          , 0.000353615050248566751         , 0.0000433351438629961441        , 7.43491728942112571e-6          , 1.64002142088723166e-6          , 4.42128774440403646e-7          , 1.40840500861131565e-7          , 5.1745732360928773e-8           , 2.15268582731546471e-8          , 9.9908988872269303e-9           , 5.108510883350147e-9            , 2.84593425798955496e-9          , 1.7099687220259641e-9           , 1.09773340450052676e-9          , 7.4638814067244454e-10          , 5.33245092396231421e-10         , 3.97437633774414169e-10         , 3.07075602721199929e-10         , 2.44611880137373985e-10         , 1.9995663564406977e-10          , 1.67073271331552005e-10         , 1.42218580298460721e-10         , 1.22995184371352786e-10         , 1.07822085156226523e-10         , 9.56286662150872756e-11         , 8.56722888698507908e-11         , 7.74264391917292433e-11         , 7.05103324623914115e-11         , 6.4643538217567933e-11          , 5.96160824450237564e-11         , 5.52683440702674105e-11         , },
-/* x = 20.5        */  {0.195734783622938109            , 0.0047740190822630547           , 0.000349318438942348724         , 0.0000425997791355823716        , 7.27310253161488328e-6          , 1.59650421052847714e-6          , 4.28299906413338093e-7          , 1.35771917817244109e-7          , 4.9642161326640851e-8           , 2.05528436508904323e-8          , 9.49399698781784075e-9          , 4.83228741165336374e-9          , 2.68030384394245423e-9          , 1.60384007883352715e-9          , 1.02569583566142659e-9          , 6.95000643116942161e-10         , 4.94996757810694253e-10         , 3.67920491252833359e-10         , 2.83586934816156706e-10         , 2.25428383458806231e-10         , 1.83940343622114644e-10         , 1.53448810295608726e-10         , 1.30442584788400795e-10         , 1.12677157294909588e-10         , 9.86749640603416593e-11         , 8.74370822578048457e-11         , 7.82716665551537684e-11         , 7.06889136838148072e-11         , 6.4335058200562726e-11          , 5.89498890498861648e-11         , 5.43387948184522218e-11         , 5.03539906716790951e-11         , },
-/* x = 20.6        */  {0.19525912123711547             , 0.00473929903169733928          , 0.000345094562230750632         , 0.000041880380581763626         , 7.11557118658382549e-6          , 1.55434489063501597e-6          , 4.1496753912362631e-7           , 1.30908903483382777e-7          , 4.76335526009458742e-8          , 1.96271652700074812e-8          , 9.0239066756886046e-9           , 4.57210813343905491e-9          , 2.52493451401278225e-9          , 1.50466450870261947e-9          , 9.5861059813590028e-10          , 6.47294229470132863e-10         , 4.59585825771904966e-10         , 3.40658911618961887e-10         , 2.61938757643010483e-10         , 2.07780314102421206e-10         , 1.69229299956863905e-10         , 1.40951849671354028e-10         , 1.19653991361567696e-10         , 1.03234090279099809e-10         , 9.03110959064576916e-11         , 7.99528788263299207e-11         , 7.15148477759998011e-11         , 6.45413068047659054e-11         , 5.87035626818080253e-11         , 5.37601451721219245e-11         , 4.95306668296980435e-11         , 4.58782908941734588e-11         , },
-/* x = 20.7        */  {0.194786909856212718            , 0.00470499779789067923          , 0.000340941844689213525         , 0.0000411765265678132817        , 6.9621899139153433e-6           , 1.51349482334880025e-6          , 4.02111582566160467e-7          , 1.26242198907302576e-7          , 4.57152039857917688e-8          , 1.87472205111280351e-8          , 8.57907369839790463e-9          , 4.32698089537672903e-9          , 2.37915512067404232e-9          , 1.41196472026791407e-9          , 8.96123402161214121e-10         , 6.02996136833714833e-10         , 4.26795691886129091e-10         , 3.15476310011662913e-10         , 2.41983870836927211e-10         , 1.91542623748958729e-10         , 1.55715548996376208e-10         , 1.29487896403188625e-10         , 1.09769105013953997e-10         , 9.45910900451331986e-11         , 8.26628655642957707e-11         , 7.31145365915719164e-11         , 6.53454774978442588e-11         , 5.89316838073992823e-11         , 5.35677297499407029e-11         , 4.9029516859594315e-11          , 4.51498284289045691e-11         , 4.18019549855981471e-11         , },
-/* x = 20.8        */  {0.194318107951776224            , 0.00467110834196250485          , 0.000336858752397872416         , 0.0000404878085541668275        , 6.81283013805638788e-6          , 1.47390733429051524e-6          , 3.8971284954744257e-7           , 1.21763002598430207e-7          , 4.38826659364037581e-8          , 1.79105573292501709e-8          , 8.15803974119462672e-9          , 4.09597833036130734e-9          , 2.24234051865993492e-9          , 1.325297522702923e-9            , 8.37906180070243871e-10         , 5.61854403845680198e-10         , 3.96426694643252646e-10         , 2.92210213970446184e-10         , 2.23587054493000971e-10         , 1.76600600821737016e-10         , 1.43300178124782875e-10         , 1.18970463487002928e-10         , 1.00711392016450718e-10         , 8.66797264106612081e-11         , 7.56685365202956906e-11         , 6.68659198903296343e-11         , 5.97121608737989255e-11         , 5.38127044291963221e-11         , 4.88837192680053285e-11         , 4.47172109668155691e-11         , 4.11581592544553493e-11         , 3.80892233765625061e-11         , },
-/* x = 20.9        */  {0.193852674691638376            , 0.00463762377640277151          , 0.000332843791655640851         , 0.0000398138306286047203        , 6.66736785640445201e-6          , 1.43553762452423732e-6          , 3.77753011177982359e-7          , 1.17462945999684754e-7          , 4.21317269729263963e-8          , 1.7114864976382794e-8           , 7.75943617283074493e-9          , 3.87823342350472956e-9          , 2.11390828262346489e-9          , 1.2442513047521214e-9           , 7.83655088549266267e-10         , 5.23636244999540048e-10         , 3.68294762393248654e-10         , 2.70711115598786073e-10         , 2.06624079402142699e-10         , 1.62849005046204117e-10         , 1.31892551910383082e-10         , 1.09320385200424847e-10         , 9.24108621212995378e-11         , 7.94374705385294607e-11         , 6.92717365637066245e-11         , 6.11558029826238482e-11         , 5.45680245254992467e-11         , 4.91412146627634528e-11         , 4.46115856340679942e-11         , 4.07860730668403809e-11         , 3.75209517702304958e-11         , 3.47075485893806818e-11         , },
-/* x = 21.0        */  {0.193390569924979533            , 0.00460453736111246404          , 0.000328895507740032127         , 0.000039154209058193282         , 6.52568345598357578e-6          , 1.39834268685260454e-6          , 3.66214554746091876e-7          , 1.13334070372771505e-7          , 4.04583999892566995e-8          , 1.63579653279660167e-8          , 7.38197821877531254e-9          , 3.67293539408310411e-9          , 1.99331566716952866e-9          , 1.16844370562969109e-9          , 7.33088666885963544e-10         , 4.88126554688136955e-10         , 3.42230170298596546e-10         , 2.50841418501487984e-10         , 1.90980800113354495e-10         , 1.50191275271498229e-10         , 1.21409611733267625e-10         , 1.0046519138744719e-10          , 8.48035044492628211e-11         , 7.28071823196580066e-11         , 6.3420988719827039e-11          , 5.59374382019127199e-11         , 4.98703167977704296e-11         , 4.48778749402533832e-11         , 4.07149304505415572e-11         , 3.72022617354685259e-11         , 3.42066047524155323e-11         , 3.16273058834799238e-11         , },
-/* x = 21.1        */  {0.192931754167779802            , 0.00457184249956590906          , 0.000325012483710883583         , 0.0000385085718591463968        , 6.3876615382840002e-6           , 1.36228122621128039e-6          , 3.55080743836116468e-7          , 1.09368805010178785e-7          , 3.88589094007751761e-8          , 1.56378047718769822e-8          , 7.02445953141453358e-9          , 3.47932587013592086e-9          , 1.88005679083310035e-9          , 1.09751946281654416e-9          , 6.85946138769605387e-10         , 4.55126530434815431e-10         , 3.18076398187439178e-10         , 2.32474471569103029e-10         , 1.7655232381396353e-10          , 1.38538804292590179e-10         , 1.11775235247432985e-10         , 9.23385356676636806e-11         , 7.78307723635116877e-11         , 6.6736642568452154e-11          , 5.80692834300451705e-11         , 5.11681622773191542e-11         , 4.55800435112306119e-11         , 4.09868214721771892e-11         , 3.71605862796303403e-11         , 3.39349520845873069e-11         , 3.1186344384391139e-11          , 2.8821530035035887e-11          , },
-/* x = 21.2        */  {0.19247618858864868             , 0.0045395327350905929           , 0.000321193339256232023         , 0.0000378765583838117729        , 6.25319075186654411e-6          , 1.32731358394476313e-6          , 3.44335580562534293e-7          , 1.05559946692735978e-7          , 3.73296790766532854e-8          , 1.49524466217491861e-8          , 6.68574712906354184e-9          , 3.29669533418382115e-9          , 1.77366002701149822e-9          , 1.03114842297988428e-9          , 6.41985846215012112e-10         , 4.24452405643749747e-10         , 2.9568908099094057e-10          , 2.15493682352846152e-10         , 1.63242248618142768e-10         , 1.27810274951200953e-10         , 1.02919650522558377e-10         , 8.48796728887861203e-11         , 7.14391130489962546e-11         , 6.11781260911431481e-11         , 5.31736883335699524e-11         , 4.68090374387869267e-11         , 4.16616360480606435e-11         , 3.74353577737465125e-11         , 3.39183286937664201e-11         , 3.09560659104793389e-11         , 2.84339704664603542e-11         , 2.62656758847575384e-11         , },
-/* x = 21.3        */  {0.192023834995020999            , 0.00450760174726035462          , 0.000317436729578665996         , 0.0000372578189240243553        , 6.12216363235394473e-6          , 1.29340166575805307e-6          , 3.33963769799205213e-7          , 1.01900640316836292e-7          , 3.5867321006105696e-8           , 1.43000640190458944e-8          , 6.36477667768615641e-9          , 3.12437982016355761e-9          , 1.67368558618122288e-9          , 9.69023703335418816e-10         , 6.00983805108323419e-10         , 3.95934282997644337e-10         , 2.74935044142846104e-10         , 1.99791703386671151e-10         , 1.50961965401215021e-10         , 1.1793105228646069e-10          , 9.47789001579867723e-11         , 7.80329815501344429e-11         , 6.55795378923486067e-11         , 5.60880120355388945e-11         , 4.86949923293098038e-11         , 4.28245242181795772e-11         , 3.80826488893292968e-11         , 3.41936736782329186e-11         , 3.09606140812460123e-11         , 2.82400260607815095e-11         , 2.59256254728727385e-11         , 2.39374005024297336e-11         , },
-/* x = 21.4        */  {0.191574655819708063            , 0.00447604334839798686          , 0.000313741344320554558         , 0.0000366520143301062448        , 5.99447644945135989e-6          , 1.26050887315039085e-6          , 3.23950685290392261e-7          , 9.83843606203174953e-8          , 3.44686246513843887e-8          , 1.36789332908416826e-8          , 6.06054809113274245e-9          , 2.96175784318404203e-9          , 1.57972327494678444e-9          , 9.10859991779416318e-10         , 5.62732372722748784e-10         , 3.69415060360960797e-10         , 2.55691416955121311e-10         , 1.85269685374028286e-10         , 1.39630017817299005e-10         , 1.08832626956296041e-10         , 8.72943510697418921e-11         , 7.17475272978697421e-11         , 6.02072301004160349e-11         , 5.14264282478534803e-11         , 4.45973808910869382e-11         , 3.91821831344081159e-11         , 3.48134839800051704e-11         , 3.12345893791981639e-11         , 2.82623408959183738e-11         , 2.5763532840111091e-11          , 2.36395843938308821e-11         , 2.18163650119881119e-11         , },
-/* x = 21.5        */  {0.191128614107793203            , 0.00444485148018343408          , 0.000310105906526622427         , 0.0000360588156448273086        , 5.87002906065705337e-6          , 1.22860003814827012e-6          , 3.14282337537048978e-7          , 9.50048949405528253e-8          , 3.31305469434983058e-8          , 1.30874277325954876e-8          , 5.7721214274755589e-9           , 2.80824754509584896e-9          , 1.49139041858928591e-9          , 8.56391975043416656e-10         , 5.27039018332721349e-10         , 3.44749441715899708e-10         , 2.37844817565759518e-10         , 1.71836591669879824e-10         , 1.29171515594896794e-10         , 1.00452105561533714e-10         , 8.04122460240600738e-11         , 6.59766639330518918e-11         , 5.52811863082790621e-11         , 4.71569266513331655e-11         , 4.08481398778471419e-11         , 3.58524027011460064e-11         , 3.18271395324003406e-11         , 2.85333222639996831e-11         , 2.58006322477849045e-11         , 2.35053604711280902e-11         , 2.1556063486775015e-11          , 1.98840542983266102e-11         , },
-/* x = 21.6        */  {0.190685673503861391            , 0.00441402021036392712          , 0.000306529171642408378         , 0.0000354779037516736683        , 5.74872477134204295e-6          , 1.1976413611652538e-6           , 3.04945343358295587e-7          , 9.17563269425560236e-8          , 3.18502028796045819e-8          , 1.25240117873577657e-8          , 5.49861306065683177e-9          , 2.66330404014747805e-9          , 1.40832993481411064e-9          , 8.05372884975239595e-10         , 4.93725188771042907e-10         , 3.21803026271709001e-10         , 2.21290603587976008e-10         , 1.59408568957888722e-10         , 1.19517596622770598e-10         , 9.27317438800948296e-11         , 7.40832933310482149e-11         , 6.06776686840407718e-11         , 5.07638892127624471e-11         , 4.32461869248123762e-11         , 3.74173853250871808e-11         , 3.28081514237698238e-11         , 2.90989810923575357e-11         , 2.6067274501679026e-11          , 2.35546379206002537e-11         , 2.14461718067546063e-11         , 1.96570462309283866e-11         , 1.81236129783383359e-11         , },
-/* x = 21.7        */  {0.19024579823955289             , 0.00438354372956253646          , 0.00030300992654720742          , 0.0000349089690368025286        , 5.63047020089424744e-6          , 1.1676003518258264e-6           , 2.9592689703402602e-7           , 8.86330212588704407e-8          , 3.06248566837717851e-8          , 1.1987235594856203e-8           , 5.23919210817757425e-9          , 2.52641694618359271e-9          , 1.3302085473470391e-9           , 7.57573153832139219e-10         , 4.62625261431028191e-10         , 3.00451469450200048e-10         , 2.05932183078227329e-10         , 1.47908369452082175e-10         , 1.10604933720316606e-10         , 8.56185193615340782e-11         , 6.82622914225505442e-11         , 5.58114087779593751e-11         , 4.66210085274451082e-11         , 3.96637459993984893e-11         , 3.42778169265113724e-11         , 3.00247516598599497e-11         , 2.66065328869060369e-11         , 2.38158395309881226e-11         , 2.15053540747283713e-11         , 1.95683496520364454e-11         , 1.79261249333874388e-11         , 1.6519696165334063e-11          , },
-/* x = 21.8        */  {0.189808953121431268            , 0.00435341634818176297          , 0.000299546988620157951         , 0.0000343517110640914567        , 5.51517515463848519e-6          , 1.13844577259963586e-6          , 2.87214742940223659e-7          , 8.56296089867124902e-8          , 2.94519134953771643e-8          , 1.14757298857607524e-8          , 4.99307709695438775e-9          , 2.39710808793117324e-9          , 1.25671512890307329e-9          , 7.12779170191143183e-10         , 4.33585577819217353e-10         , 2.8057970996592463e-10          , 1.91680380887630142e-10         , 1.37264820345156086e-10         , 1.02375282335721873e-10         , 7.90637395453834846e-11         , 6.29077853217194162e-11         , 5.13420366043006127e-11         , 4.28211277922462613e-11         , 3.63817511102773487e-11         , 3.14044931178909641e-11         , 2.7479673406735502e-11          , 2.43292876490945241e-11         , 2.17602257605279913e-11         , 1.96354590501387654e-11         , 1.78558432021770705e-11         , 1.63483565753545368e-11         , 1.50583336893036099e-11         , },
-/* x = 21.9        */  {0.189375103519156438            , 0.00432363249339891637          , 0.000296139204838192872         , 0.0000338058382627183344        , 5.40275250125860792e-6          , 1.11014758510105382e-6          , 2.78797149593841967e-7          , 8.27409739912929614e-8          , 2.8328911551782661e-8           , 1.09882011981504879e-8          , 4.75953285076587677e-9          , 2.27492935992624531e-9          , 1.18755916385821403e-9          , 6.70792127742956239e-10         , 4.06463551318400705e-10         , 2.62081257692231801e-10         , 1.78452855870897678e-10         , 1.27412336585062918e-10         , 9.47750657343227074e-11         , 7.30226833528783704e-11         , 5.79817522705111619e-11         , 4.72367109994769426e-11         , 3.93354947868411183e-11         , 3.33747343400452688e-11         , 2.87746258600059379e-11         , 2.51523462517448266e-11         , 2.22485332768291919e-11         , 1.98832959442483931e-11         , 1.79291638269359377e-11         , 1.62940282379333538e-11         , 1.49101316147077699e-11         , 1.37268065566964934e-11         , },
-/* x = 22.0        */  {0.188944215353953703            , 0.00429418670625015666          , 0.000292785450904628652         , 0.0000332710676267348631        , 5.29311805546215351e-6          , 1.08267689891704761e-6          , 2.70662885029050836e-7          , 7.99622399674630449e-8          , 2.72535148341513359e-8          , 1.05234273948019504e-8          , 4.53786758390795831e-9          , 2.15946073756318709e-9          , 1.12246932169696388e-9          , 6.31426959844027374e-10         , 3.81126843329587423e-10         , 2.44857537437980518e-10         , 1.66173564802056899e-10         , 1.18290473390476936e-10         , 8.77549945313590976e-11         , 6.74542724630316847e-11         , 5.34493140175305278e-11         , 4.34653423961786173e-11         , 3.61377934942906378e-11         , 3.0619406771731505e-11          , 2.63673933860110967e-11         , 2.30239878779011649e-11         , 2.03471948292287938e-11         , 1.81694208332325817e-11         , 1.63720758304749889e-11         , 1.48695798420495883e-11         , 1.35990545771371188e-11         , 1.25135345436016311e-11         , },
-/* x = 22.1        */  {0.188516255087370082            , 0.00426507363880019392          , 0.000289484630407218803         , 0.0000327471244261217948        , 5.18619046564121898e-6          , 1.05600592283394313e-6          , 2.62801193431282577e-7          , 7.72887582148413796e-8          , 2.62235061473288727e-8          , 1.00802534614005954e-8          , 4.327430186785674e-9            , 2.0503084256066659e-9           , 1.06119213299250667e-9          , 5.94511353260817776e-10         , 3.57452602428904048e-10         , 2.28817284157323447e-10         , 1.54772269189875698e-10         , 1.09843515216773236e-10         , 8.12697176901027652e-11         , 6.23207702228344183e-11         , 4.92784734842991243e-11         , 4.0000359777641246e-11          , 3.32039357410419131e-11         , 2.80944705353476259e-11         , 2.41637693320546922e-11         , 2.1077447660320337e-11          , 1.8609690497552402e-11          , 1.66043458299944861e-11         , 1.49510748860899482e-11         , 1.35703565118236658e-11         , 1.24038353735989877e-11         , 1.14079739164031048e-11         , },
-/* x = 22.2        */  {0.188091189710309518            , 0.00423628805139475645          , 0.000286235674004548156         , 0.0000322337419288380528        , 5.08189110629583633e-6          , 1.03010791834079484e-6          , 2.55201772959853763e-7          , 7.47160960843888009e-8          , 2.52367806066350418e-8          , 9.65758756715224218e-9          , 4.12760769019496495e-9          , 1.947103134298606e-9            , 1.00349076030702208e-9          , 5.59884835054941313e-10         , 3.35326761604667968e-10         , 2.13875985479712014e-10         , 1.44184081500786368e-10         , 1.02020098159680011e-10         , 7.52775023502847461e-11         , 5.75875057595580617e-11         , 4.54398737249235753e-11         , 3.68164975559844352e-11         , 3.05118708034047984e-11         , 2.57804471828166275e-11         , 2.2146366809824861e-11          , 1.92970640190373992e-11         , 1.70218003093412094e-11         , 1.51750694855614061e-11         , 1.36542002358044972e-11         , 1.23852946442499701e-11         , 1.1314190377806094e-11          , 1.04005243650904069e-11         , },
-/* x = 22.3        */  {0.1876689867323388              , 0.00420782480999304756          , 0.000283037538639692013         , 0.0000317306611333986803        , 4.98014397499802335e-6          , 1.00495715529379573e-6          , 2.47854754694009691e-7          , 7.22400260570225388e-8          , 2.42913395061976978e-8          , 9.25439737054798442e-9          , 3.93782289599755484e-9          , 1.84949847392439223e-9          , 9.49143856980723388e-10         , 5.27397927031330191e-10         , 3.14643389034196345e-10         , 1.99955367781859547e-10         , 1.34349047585580444e-10         , 9.47728630359505933e-11         , 6.97399400748321208e-11         , 5.32226211625118899e-11         , 4.1906577273928375e-11          , 3.38906006571817308e-11         , 2.80414114201357902e-11         , 2.36595209637971385e-11         , 2.02992961071234828e-11         , 1.76685343122935532e-11         , 1.55705464351168842e-11         , 1.38697327834178628e-11         , 1.24705476270678088e-11         , 1.1304312462379079e-11          , 1.03207523847445624e-11         , 9.48244431723453191e-12         , },
-/* x = 22.4        */  {0.187249614171256368            , 0.00417967888357751629          , 0.000279889206780109617         , 0.0000312376305115381706        , 4.88087559368591856e-6          , 9.80528869632482686e-7          , 2.40750682641055064e-7          , 6.98565154173141327e-8          , 2.3385284545126547e-8           , 8.86970655422117443e-9          , 3.75753216277142031e-9          , 1.75716945937850763e-9          , 8.97944507313906052e-10         , 4.96911362607253724e-10         , 2.95304088222168886e-10         , 1.86982922330361902e-10         , 1.25211762370503002e-10         , 8.80581366112480941e-11         , 6.46216773069419381e-11         , 4.9196839783798376e-11          , 3.86538641411931295e-11         , 3.12014462443355769e-11         , 2.57740747871371728e-11         , 2.17153957004126856e-11         , 1.86080348186766017e-11         , 1.61787961623318978e-11         , 1.42440840677732661e-11         , 1.26775182488682732e-11         , 1.13901755724346108e-11         , 1.03182225354037578e-11         , 9.4149886505834207e-12          , 8.64577387595768301e-12         , },
-/* x = 22.5        */  {0.186833040542916369            , 0.00415184534163836837          , 0.00027678968568278473          , 0.0000307544057605362531        , 4.78401491408803355e-6          , 9.56799223044445344e-7          , 2.33880494748814162e-7          , 6.75617164876071686e-8          , 2.25168123893743559e-8          , 8.50259157393561194e-9          , 3.5862233358336692e-9           , 1.66981111689434534e-9          , 8.49699242140187326e-10         , 4.68295361360959336e-10         , 2.77217443655208645e-10         , 1.74891468305323059e-10         , 1.16721016115633373e-10         , 8.18356386567641842e-11         , 5.9890168016116298e-11          , 4.54832538741064442e-11         , 3.56590468628586286e-11         , 2.87295806470153497e-11         , 2.36929372346699334e-11         , 1.9933164073302977e-11          , 1.70593093151939308e-11         , 1.48159192040664349e-11         , 1.30316019365750032e-11         , 1.15885580083769363e-11         , 1.04040199599826325e-11         , 9.41865212127771145e-12         , 8.58912628653048755e-12         , 7.88326469370770454e-12         , },
-/* x = 22.6        */  {0.186419234851300638            , 0.00412431935173034034          , 0.000273738006683667395         , 0.0000302807495648027032        , 4.68949322708770209e-6          , 9.33745264480852453e-7          , 2.27235504868021881e-7          , 6.53519573900331086e-8          , 2.16842095485776257e-8          , 8.15217860776618781e-9          , 3.42341381178693851e-9          , 1.58713718568003896e-9          , 8.04227124244534251e-10         , 4.41428956887730276e-10         , 2.60298508433202867e-10         , 1.63618749773781755e-10         , 1.08829468765470942e-10         , 7.60682127095706473e-11         , 5.55154466824563014e-11         , 4.20571299217463567e-11         , 3.29013011539858425e-11         , 2.64571701886166309e-11         , 2.17825014009417544e-11         , 1.82991882357175026e-11         , 1.5640986555105637e-11          , 1.35690063365537253e-11         , 1.19232316012454018e-11         , 1.05938500017269573e-11         , 9.50381626785475268e-12         , 8.59797063008347508e-12         , 7.83608434484462833e-12         , 7.18831615591978981e-12         , },
-/* x = 22.7        */  {0.186008166578831486            , 0.00409709617709935242          , 0.000270733224510510379         , 0.0000298164313663362525        , 4.59724407584730697e-6          , 9.11344893430390558e-7          , 2.20807385613397902e-7          , 6.32237333059061972e-8          , 2.08858475485145723e-8          , 7.81764069248273905e-9          , 3.26864872843922172e-9          , 1.50887890773551278e-9          , 7.61358898499678813e-10         , 4.16199373930850098e-10         , 2.44468330618977462e-10         , 1.53107063918920055e-10         , 1.01493350120157397e-10         , 7.0721578588850622e-11          , 5.14699199246342708e-11         , 3.88957302022046728e-11         , 3.03615108338019023e-11         , 2.4367864717059518e-11          , 2.00285748194313524e-11         , 1.68009907674677309e-11         , 1.43419753312688872e-11         , 1.24281036387841321e-11         , 1.09099647477227943e-11         , 9.68518162109982864e-12         , 8.68202870328446475e-12         , 7.84922356951186378e-12         , 7.14941199493004598e-12         , 6.55491730527217905e-12         , },
-/* x = 22.8        */  {0.185599805676918419            , 0.00407017117437674426          , 0.000267774416618231401         , 0.0000293612271436902664        , 4.50720317252085535e-6          , 8.89576824864185032e-7          , 2.1458815207511348e-7           , 6.11736982038511963e-8          , 2.01201783810725277e-8          , 7.498195035030094e-9            , 3.12149927159454172e-9          , 1.43478389961896256e-9          , 7.20936201981917878e-10         , 3.92501451067703144e-10         , 2.29653515306300468e-10         , 1.43302918048728728e-10         , 9.4672183742322522e-11          , 6.57641048823675364e-11         , 4.77281752197846537e-11         , 3.59781491726172943e-11         , 2.8022125808583134e-11          , 2.24466727476145818e-11         , 1.84181589317268301e-11         , 1.54271550672592936e-11         , 1.31521361250110358e-11         , 1.13841181856328331e-11         , 9.98357777646032718e-12         , 8.85506011604635471e-12         , 7.93178564740934085e-12         , 7.16607239126422944e-12         , 6.52323224175232392e-12         , 5.97759398873263581e-12         , },
-/* x = 22.9        */  {0.185194122556732157            , 0.00404353979133888314          , 0.000264860682545968124         , 0.0000289149191990945695        , 4.41930831839197923e-6          , 8.68420555768962349e-7          , 2.08570146335136427e-7          , 5.91986570097693461e-8          , 1.9385730214786085e-8           , 7.19310048781716042e-9          , 2.98156109081197708e-9          , 1.36461510038676902e-9          , 6.82810829684676633e-10         , 3.7023710551920127e-10          , 2.15785819643688572e-10         , 1.3415671310763037e-10          , 8.83285326855686417e-11         , 6.11665997660757098e-11         , 4.42668052942172964e-11         , 3.32851634617585654e-11         , 2.58670320015521044e-11         , 2.06798472210947296e-11         , 1.69393476237898625e-11         , 1.41672343609835403e-11         , 1.2062198812854339e-11          , 1.04287430675188852e-11         , 9.13656303724815449e-12         , 8.09664916237236943e-12         , 7.24682084264154258e-12         , 6.54273970945568251e-12         , 5.95219068821806986e-12         , 5.45136075641494746e-12         , },
-/* x = 23.0        */  {0.184791088080199504            , 0.00401719756473001537          , 0.00026199114329502717          , 0.0000284772959533986855        , 4.33349932728248872e-6          , 8.47856333190132206e-7          , 2.02746022745546462e-7          , 5.72955581933866736e-8          , 1.86811033500974584e-8          , 6.90165517728999508e-9          , 2.8484528167868019e-9           , 1.29814979035230046e-9          , 6.46844051777954166e-10         , 3.49314836915909462e-10         , 2.02801778269837751e-10         , 1.25622451598005998e-10         , 8.24277652874166744e-11         , 5.69021186558202468e-11         , 4.10642468834062986e-11         , 3.07990943123698727e-11         , 2.38814322144653507e-11         , 1.90547809668708799e-11         , 1.55812344621397594e-11         , 1.30116685756363102e-11         , 1.10636875377801669e-11         , 9.55438897900454946e-12         , 8.36206612200463303e-12         , 7.40371104672231842e-12         , 6.62141980984149152e-12         , 5.97395940965100248e-12         , 5.43140888809544007e-12         , 4.97167708384354219e-12         , },
-/* x = 23.1        */  {0.184390673551212858            , 0.0039911401181463102           , 0.000259164940726961123         , 0.0000280481517485168596        , 4.24971795208422762e-6          , 8.27865123710635219e-7          , 1.97108733928361168e-7          , 5.5461486747662202e-8           , 1.80049664045071771e-8          , 6.62319427597230651e-9          , 2.72181467352321156e-9          , 1.23517867569883103e-9          , 6.12905978666053338e-10         , 3.29649267098482338e-10         , 1.906423568172635e-10           , 1.176574679869955e-10           , 7.69378394133205858e-11         , 5.29457873146781366e-11         , 3.81006326690970857e-11         , 2.85036814297649946e-11         , 2.20517369926273889e-11         , 1.75599110388803793e-11         , 1.43338278781473352e-11         , 1.19517083942679797e-11         , 1.01488521175139746e-11         , 8.75412179776483402e-12         , 7.65382867931941804e-12         , 6.77055396758614143e-12         , 6.05037102848026746e-12         , 5.45493121043129489e-12         , 4.95644187692634148e-12         , 4.53440752794496555e-12         , },
-/* x = 23.2        */  {0.183992850707048346            , 0.00396536315997912028          , 0.000256381236981038717         , 0.0000276272866570695947        , 4.16790781427419773e-6          , 8.08428584295331702e-7          , 1.91651517458712503e-7          , 5.36936575387688351e-8          , 1.73560527137315504e-8          , 6.35708790881568464e-9          , 2.60130717894632369e-9          , 1.17550503434233208e-9          , 5.80874970376832952e-10         , 3.11160713255005062e-10         , 1.79252631325356633e-10         , 1.10222179828593824e-10         , 7.18291036702116298e-11         , 4.92746391536291997e-11         , 3.53576553014748507e-11         , 2.63839672794392362e-11         , 2.0365464644602183e-11          , 1.61846311646573402e-11         , 1.31879736140447567e-11         , 1.09793458673151969e-11         , 9.31060541756951155e-12         , 8.02160562655855923e-12         , 7.00613626219606903e-12         , 6.19198399801299011e-12         , 5.52892145478718832e-12         , 4.98127927875605208e-12         , 4.52323950556073611e-12         , 4.13578546229775829e-12         , },
-/* x = 23.3        */  {0.183597591709986741            , 0.00393986248141555509          , 0.000253639213910403244         , 0.0000272145062989300885        , 4.08801433627975372e-6          , 7.89529034434413893e-7          , 1.86367883195374608e-7          , 5.19894090057033012e-8          , 1.67331569358680997e-8          , 6.10273918531462705e-9          , 2.48660992804467469e-9          , 1.11894391877343551e-9          , 5.50637087074955863e-10         , 2.93774791905103498e-10         , 1.68581491573856671e-10         , 1.03279857973085191e-10         , 6.70741142289606728e-11         , 4.58674655678031896e-11         , 3.2818442505945023e-11          , 2.4426190957594255e-11          , 1.88111496405601369e-11         , 1.49192116130234345e-11         , 1.2135283803947084e-11          , 1.00872510103335883e-11         , 8.54246616715890739e-12         , 7.35105081748310935e-12         , 6.41377076385332641e-12         , 5.66326129588310587e-12         , 5.05273599093341752e-12         , 4.54901453620453289e-12         , 4.12811123476381704e-12         , 3.77238006919569255e-12         , },
-/* x = 23.4        */  {0.183204869139131545            , 0.00391463395449453223          , 0.000250938072536242744         , 0.000026809621664396954         , 4.00998467656714545e-6          , 7.71149429522821318e-7          , 1.81251601224674426e-7          , 5.03461971898396623e-8          , 1.61351318463958032e-8          , 5.85958234941148094e-9          , 2.37742045304587162e-9          , 1.06532141191649483e-9          , 5.2208557773094092e-10          , 2.77422051431670449e-10         , 1.58581366503926413e-10         , 9.67964143662931617e-11         , 6.26474660060628634e-11         , 4.27046782463403523e-11         , 3.04674423579180839e-11         , 2.26176908327269893e-11         , 1.73782586795941577e-11         , 1.3754725845983215e-11          , 1.11680721176481248e-11         , 9.26871386800896608e-12         , 7.83850674198879064e-12         , 6.73716654030138329e-12         , 5.87196703598343042e-12         , 5.18006018452512411e-12         , 4.61786055293879963e-12         , 4.15450032577276869e-12         , 3.76769408011212284e-12         , 3.44106629520285234e-12         , },
-/* x = 23.5        */  {0.182814655982418753            , 0.00388967353021653844          , 0.000248277032519322747         , 0.0000264124489437269682        , 3.93376766733282018e-6          , 7.53273335415939415e-7          , 1.76296690385725627e-7          , 4.87615900759192357e-8          , 1.5560885312607648e-8           , 5.62708103974682848e-9          , 2.27345315550980135e-9          , 1.01447393232929256e-9          , 4.95120404198822364e-10         , 2.62037631037052793e-10         , 1.49207970037688246e-10         , 9.0740206060933645e-11          , 5.85256370565928758e-11         , 3.97681824816699376e-11         , 2.82903178857312763e-11         , 2.09468152243187104e-11         , 1.60571137770074867e-11         , 1.26829833750687047e-11         , 1.02792944446569462e-11         , 8.51759156979754779e-12         , 7.19330547981716837e-12         , 6.17511749536092379e-12         , 5.3763733198793464e-12          , 4.73843276009633036e-12         , 4.22068841651532633e-12         , 3.79442113855948443e-12         , 3.43892342438152658e-12         , 3.13899750336585722e-12         , },
-/* x = 23.6        */  {0.182426925628813042            , 0.00386497723670539517          , 0.00024565533164825839          , 0.000026022809362773357         , 3.85931375468271183e-6          , 7.35884904104976815e-7          , 1.71497407346721276e-7          , 4.72332622270736408e-8          , 1.50093774367924549e-8          , 5.40472665330447012e-9          , 2.17443830557805486e-9          , 9.66247585331322231e-10         , 4.69647798159315011e-10         , 2.47560944162757044e-10         , 1.4042006573927325e-10          , 8.50818541724190984e-11         , 5.46868451238188401e-11         , 3.70412605844338755e-11         , 2.62738502320856535e-11         , 1.94028404467463216e-11         , 1.48388217780161811e-11         , 1.16964682923288268e-11         , 9.4624946413007787e-12          , 7.8282599440210221e-12          , 6.60190313280180594e-12         , 5.66048440691834096e-12         , 4.92301515364602946e-12         , 4.33477571276476193e-12         , 3.85792954875676077e-12         , 3.46575412666085944e-12         , 3.13900644008999807e-12         , 2.86358057933786195e-12         , },
-/* x = 23.7        */  {0.182041651860685237            , 0.00384054117742038504          , 0.000243072225343927616         , 0.0000256405290244863277        , 3.78657494119025633e-6          , 7.18968850458357874e-7          , 1.66848236203708709e-7          , 4.57589896975120132e-8          , 1.44796178581547764e-8          , 5.19203680595964986e-9          , 2.08012110394703696e-9          , 9.20497556893332921e-10         , 4.45579848573900033e-10         , 2.33935384561259604e-10         , 1.32179248882072019e-10         , 7.97940766125800199e-11         , 5.11109153765017934e-11         , 3.45084645839823539e-11         , 2.44058496686832654e-11         , 1.79758956033224728e-11         , 1.37152097549742792e-11         , 1.0788282991775313e-11          , 8.71175490511693781e-12         , 7.19556929507313489e-12         , 6.05976309545657662e-12         , 5.18922796484338917e-12         , 4.50826244859108101e-12         , 3.96580007661459253e-12         , 3.52658265970478863e-12         , 3.16574315315142076e-12         , 2.86539788801979361e-12         , 2.61245327057830807e-12         , },
-/* x = 23.8        */  {0.181658808846366126            , 0.00381636152941715397          , 0.000240526986179450934         , 0.000025265438756043219         , 3.71550473072909842e-6          , 7.02510429978244489e-7          , 1.6234387857485801e-7           , 4.43366452074728162e-8          , 1.39706632040891631e-8          , 4.98855388386696827e-9          , 1.99026080243748561e-9          , 8.77087547347460409e-10         , 4.22834117469401411e-10         , 2.21108053346364559e-10         , 1.24449744598818505e-10         , 7.48515335276818148e-11         , 4.77791584434885295e-11         , 3.21555174619125885e-11         , 2.26750738176230744e-11         , 1.66568935673103255e-11         , 1.26787657915340428e-11         , 9.95209663875658607e-12         , 8.02165037853888536e-12         , 6.61480398290268032e-12         , 5.56273507874671675e-12         , 4.75765591198543829e-12         , 4.12879945510872048e-12         , 3.62850364858571277e-12         , 3.2239097315994106e-12          , 2.89187515237571735e-12         , 2.61577807861523248e-12         , 2.38346355771947318e-12         , },
-/* x = 23.9        */  {0.181278371132871801            , 0.00379243454165586008          , 0.000238018903415186007         , 0.0000248973739613857936        , 3.64605807548141116e-6          , 6.86495417523924662e-7          , 1.57979244164729491e-7          , 4.29641935659494097e-8          , 1.34816146820112876e-8          , 4.79384368002280938e-9          , 1.90462987931656439e-9          , 8.35889242187160085e-10         , 4.01333282033537275e-10         , 2.09029505475665934e-10         , 1.1719822089417113e-10          , 7.02306844524971243e-11         , 4.4674257927318214e-11          , 2.99692222280313984e-11         , 2.10711524870188017e-11         , 1.54374676342697791e-11         , 1.17225846994753382e-11         , 9.18209798278009719e-12         , 7.38720761836702842e-12         , 6.08164547541665393e-12         , 5.10702192976950866e-12         , 4.36239300119468e-12            , 3.78159736316586735e-12         , 3.32014583987846754e-12         , 2.94741280526601452e-12         , 2.64185859411218843e-12         , 2.38803280232257106e-12         , 2.17465087531541034e-12         , },
-/* x = 24.0        */  {0.180900313638795883            , 0.00376875653335509453          , 0.000235547282548207045         , 0.0000245361744789518705        , 3.57819132502745105e-6          , 6.7091008695628368e-7           , 1.53749441774451619e-7          , 4.16396873275505886e-8          , 1.30116158034961674e-8          , 4.60749411070816783e-9          , 1.82301326579192495e-9          , 7.96781817420575688e-10         , 3.81004801150634372e-10         , 1.97653514235897257e-10         , 1.10393615394300728e-10         , 6.59096562706652112e-11         , 4.17801666447464702e-11         , 2.79373782048717196e-11         , 1.95845185776608168e-11         , 1.43099133735554009e-11         , 1.08403182526222846e-11         , 8.4729521440567227e-12          , 6.80386659899266872e-12         , 5.59213857316414823e-12         , 4.68914932283174977e-12         , 4.0003535703325992e-12          , 3.46388930508690795e-12         , 3.03822474430864883e-12         , 2.69481282279551475e-12         , 2.41360386367819507e-12         , 2.18023505237963607e-12         , 1.98422901567430881e-12         , },
-/* x = 24.1        */  {0.180524611647364136            , 0.00374532389239015157          , 0.00023311144487575985          , 0.0000241816844443977036        , 3.51186217742643127e-6          , 6.55741191659915842e-7          , 1.49649770735044324e-7          , 4.03612626706563978e-8          , 1.25598502329856458e-8          , 4.4291140068634469e-9           , 1.74520762034165254e-9          , 7.5965147712109678e-10          , 3.61780604644136667e-10         , 1.86936852410074234e-10         , 1.04006974795314642e-10         , 6.18681211436988806e-11         , 3.90820109028387287e-11         , 2.60487039389178313e-11         , 1.82063445627445128e-11         , 1.32671352465499668e-11         , 1.00261295576267661e-11         , 7.81976103578545298e-12         , 6.26744594607750832e-12         , 5.14266053185994393e-12         , 4.30593807177549352e-12         , 3.6687165057917138e-12          , 3.17314754891159392e-12         , 2.78045622727128424e-12         , 2.46403034361166092e-12         , 2.2052053868885082e-12          , 1.99062837943119101e-12         , 1.81057056447020902e-12         , },
-/* x = 24.2        */  {0.180151240799647079            , 0.00372213307373427463          , 0.000230710727072203231         , 0.0000238337521581162949        , 3.44702963220302852e-6          , 6.40975945901648193e-7          , 1.4567571274236872e-7           , 3.91271354847791173e-8          , 1.21255397538058404e-8          , 4.25833197576890917e-9          , 1.67102064777118163e-9          , 7.24391020985758903e-10         , 3.43596803619594452e-10         , 1.76839088905078058e-10         , 9.80113060527484353e-11         , 5.80871836373062258e-11         , 3.65660021750497873e-11         , 2.4292766204391729e-11          , 1.6928484084083207e-11          , 1.23025975955990778e-11         , 9.27465121372480863e-12         , 7.21802711319491443e-12         , 5.77411112362186002e-12         , 4.72989283220868606e-12         , 3.95447883532489565e-12         , 3.36490238526521883e-12         , 2.90706268934799307e-12         , 2.54475485643306482e-12         , 2.25316796734990226e-12         , 2.01492534410870111e-12         , 1.81761173178367913e-12         , 1.65219273046944486e-12         , },
-/* x = 24.3        */  {0.179780177087926397            , 0.00369918059794155375          , 0.000228344480778966599         , 0.0000234922299573651941        , 3.38365394515785596e-6          , 6.26602006986340419e-7          , 1.41822924073357723e-7          , 3.79355976557426159e-8          , 1.17079423446827154e-8          , 4.09479532870466857e-9          , 1.60027046009937106e-9          , 6.90899439866821461e-10         , 3.26393420419292681e-10         , 1.67322399710350777e-10         , 9.23814384283992114e-11         , 5.45492763346565399e-11         , 3.42193555929029516e-11         , 2.26599146091878212e-11         , 1.57434182461379517e-11         , 1.14102796409019531e-11         , 8.58094694312565601e-12         , 6.66362016684943634e-12         , 5.3203453213015735e-12          , 4.35079536829838512e-12         , 3.63210900721717717e-12         , 3.08655260893770351e-12         , 2.66352466042291335e-12         , 2.32921651117582545e-12         , 2.060494311839529e-12           , 1.84117883159637578e-12         , 1.65972564824931852e-12         , 1.50774444411397406e-12         , },
-/* x = 24.4        */  {0.179411396849211014            , 0.0036764630496701953           , 0.000226012072207071768         , 0.000023156974092825312         , 3.32169658492404855e-6          , 6.12607458172803725e-7          , 1.38087228164287415e-7          , 3.67850135379533049e-8          , 1.13063503603623864e-8          , 3.93816907054396412e-9          , 1.53278497657213523e-9          , 6.59081537385240182e-10         , 3.10114136808307484e-10         , 1.58351392143290331e-10         , 8.70938955789696712e-11         , 5.12380632822746208e-11         , 3.20302147158892269e-11         , 2.11412213526480639e-11         , 1.46442062239254768e-11         , 1.05846341530763047e-11         , 7.94047640071428104e-12         , 6.15274690192964247e-12         , 4.90292281081671427e-12         , 4.00258284573018795e-12         , 3.33639160111065295e-12         , 2.83151034506768493e-12         , 2.4406054094945279e-12          , 2.1321025222969469e-12          , 1.88442940801666208e-12         , 1.6825203410211223e-12          , 1.5156396824821157e-12          , 1.37599461098955097e-12         , },
-/* x = 24.5        */  {0.179044876758898891            , 0.00365397707624492944          , 0.000223712881751784487         , 0.0000228278446094198771        , 3.26112019119572823e-6          , 5.98980792314553013e-7          , 1.3446460853289034e-7           , 3.56738166036554688e-8          , 1.09200888103341954e-8          , 3.78813494749438504e-9          , 1.46840136028442572e-9          , 6.28847575867683358e-10         , 2.94706059112250239e-10         , 1.4989294141530205e-10          , 8.21267769338102004e-11         , 4.81383506657967405e-11         , 2.99875820853723148e-11         , 1.97284257216496094e-11         , 1.36244398326792e-11            , 9.8205494969933647e-12          , 7.34906289645481009e-12         , 5.68192306731003438e-12         , 4.51888455995665203e-12         , 3.68270319880803699e-12         , 3.06509595688820836e-12         , 2.59780313124625879e-12         , 2.23654308647150346e-12         , 1.95182520666396233e-12         , 1.7235313859196408e-12          , 1.53763143961151014e-12         , 1.38414094858415447e-12         , 1.25582141647301824e-12         , },
-/* x = 24.6        */  {0.178680593824580661            , 0.00363171938625736347          , 0.000221446303618977902         , 0.0000225047052312299157        , 3.20188853455755594e-6          , 5.85710896191876957e-7          , 1.30951202027093279e-7          , 3.46005062596454353e-8          , 1.05485137300208195e-8          , 3.64439054944505535e-9          , 1.40696548906095209e-9          , 6.00112944972007824e-10         , 2.80119499119897786e-10         , 1.4191603862480154e-10          , 7.74596476669193637e-11         , 4.52360041602327777e-11         , 2.80812551079269761e-11         , 1.84138829452110025e-11         , 1.26782017362840692e-11         , 9.11331476799393648e-12         , 6.80286378647468775e-12         , 5.24794791846043319e-12         , 4.16551591131279963e-12         , 3.38881785268022558e-12         , 2.81618011013743327e-12         , 2.3836269865757184e-12          , 2.04972761500310474e-12         , 1.78693467353568427e-12         , 1.57648433713930386e-12         , 1.40530954389698038e-12         , 1.26412368765676743e-12         , 1.146202587192153e-12           , },
-/* x = 24.7        */  {0.178318525379981388            , 0.00360968674820313005          , 0.000219211745462806211         , 0.0000221874232503495488        , 3.14396647784784405e-6          , 5.72787035503385652e-7          , 1.27543292384086982e-7          , 3.35636448224652941e-8          , 1.01910106391423921e-8          , 3.50664846360476564e-9          , 1.3483314584037511e-9           , 5.72797851480435836e-10         , 2.66307769649894361e-10         , 1.34391649350245268e-10         , 7.30734366216878426e-11         , 4.25178724429899724e-11         , 2.63017668499483065e-11         , 1.7190517058766221e-11          , 1.18000269982100189e-11         , 8.45858776494995744e-12         , 6.29834330946974777e-12         , 4.84788081666026028e-12         , 3.84032614921353019e-12         , 3.11878367144465704e-12         , 2.58777468041813927e-12         , 2.18733190273777376e-12         , 1.8786875241778069e-12          , 1.63610679020609241e-12         , 1.44208724931360894e-12         , 1.28445768958771071e-12         , 1.15457976397635893e-12         , 1.04620652342743106e-12         , },
-/* x = 24.8        */  {0.177958649079036819            , 0.00358787598915471866          , 0.000217008628034302077         , 0.0000218758694195309969        , 3.08731993899080718e-6          , 5.60198840486780702e-7          , 1.24237304084307377e-7          , 3.25618546436099608e-8          , 9.84699308228241071e-9          , 3.37463547632780527e-9          , 1.29236111446142055e-9          , 5.46827028845725624e-10         , 2.53226993760279208e-10         , 1.272925820779262e-10           , 6.89503415960114262e-11         , 3.99717163980340866e-11         , 2.46403313588148391e-11         , 1.60517774576421175e-11         , 1.09848677031377711e-11         , 7.8523655660132433e-12          , 5.8322476639652384e-12          , 4.47901978388576836e-12         , 3.54102979365418096e-12         , 2.87063644702817498e-12         , 2.37816814654200726e-12         , 2.00740859352253411e-12         , 1.72207792999614064e-12         , 1.4981322045958627e-12          , 1.31924391755910855e-12         , 1.17407520885138152e-12         , 1.05459000766917028e-12         , 9.5498422431408716e-13          , },
-/* x = 24.9        */  {0.177600942890100603            , 0.0035662839934689167           , 0.000214836384840526073         , 0.0000215699178484754758        , 3.03191585523647909e-6          , 5.47936292140093181e-7          , 1.21029796485729991e-7          , 3.15938153767634229e-8          , 9.5159012469835325e-9           , 3.24809182022185998e-9          , 1.23892361511132358e-9          , 5.22129465174023491e-10         , 2.4083592665323524e-10          , 1.20593365756213969e-10         , 6.50737414406897956e-11         , 3.75861435764774845e-11         , 2.30887931566139894e-11         , 1.49915988453179981e-11         , 1.02280603998936665e-11         , 7.29095749246265692e-12         , 5.40158213924936295e-12         , 4.13888184814856499e-12         , 3.26552947387475803e-12         , 2.64257579624375033e-12         , 2.18579338859499842e-12         , 1.84247639296645738e-12         , 1.57866956565991932e-12         , 1.37190633149699556e-12         , 1.20695374620300023e-12         , 1.0732492341796319e-12          , 9.6331632821632404e-13          , 8.71761934734345819e-13         , },
-/* x = 25.0        */  {0.177245385090279095            , 0.00354490770152782302          , 0.000212694461813910504         , 0.0000212694459036321731        , 2.97772214874962694e-6          , 5.35989709016055549e-7          , 1.17917458224654922e-7          , 3.06582613795329803e-8          , 9.19720065498259482e-9          , 3.12677046381678296e-9          , 1.18789501737307824e-9          , 4.98638148419393582e-10         , 2.29095789395621767e-10         , 1.14270135820511603e-10         , 6.14281144657769853e-11         , 3.53505475128513711e-11         , 2.16395805806685697e-11         , 1.40043643059419756e-11         , 9.52529613686010248e-12         , 6.77096026397719542e-12         , 5.00359012860293202e-12         , 3.82518502815512384e-12         , 3.01190024691412609e-12         , 2.43295134492343307e-12         , 2.00921538692874668e-12         , 1.69127220189089133e-12         , 1.44733876862942875e-12         , 1.25642021744791406e-12         , 1.10430336189342505e-12         , 9.81146955259224148e-13         , 8.79994529906604082e-13         , 7.95834449186776569e-13         , },
-/* x = 25.1        */  {0.176891954259890405            , 0.00352374410851243174          , 0.000210582316991453465         , 0.0000209743341113732282        , 2.92470769349165994e-6          , 5.24349734563618942e-7          , 1.1489710186989123e-7           , 2.97539792425760436e-8          , 8.8903809224576106e-9           , 3.01043644124523462e-9          , 1.13915788948985768e-9          , 4.762898276497691e-10           , 2.17970113638965875e-10         , 1.08300528081783755e-10         , 5.79989626880390235e-11         , 3.32550515275802648e-11         , 2.02856626710435422e-11         , 1.30848712525066634e-11         , 8.87259287986316395e-12         , 6.28923516506642782e-12         , 4.63573386790813337e-12         , 3.53583181903647567e-12         , 2.77837523804713275e-12         , 2.24025008851630646e-12         , 1.84711997792159391e-12         , 1.55264039142541259e-12         , 1.32705834051979387e-12         , 1.15075220675192601e-12         , 1.01045896619030958e-12         , 8.97008561837554906e-13         , 8.03927766530146411e-13         , 7.26559013739771743e-13         , },
-/* x = 25.2        */  {0.176540629277044512            , 0.00350279026320781796          , 0.000208499420203431888         , 0.0000206844660644181091        , 2.87284228334206398e-6          , 5.13007324991901519e-7          , 1.11965658817940029e-7          , 2.88798054394143077e-8          , 8.59495458540625691e-9          , 2.89886621954696628e-9          , 1.0926009461240693e-9           , 4.55024789322741836e-10         , 2.07424596581027689e-10         , 1.02663579916397331e-10         , 5.47727414881639128e-11         , 3.12904566749501338e-11         , 1.90205093290513376e-11         , 1.22283000222108613e-11         , 8.26627011980383762e-12         , 5.84288705741022344e-12         , 4.29567675594706316e-12         , 3.268894052669898e-12           , 2.56333249058608896e-12         , 2.06308482811720779e-12         , 1.69830357504448483e-12         , 1.42552358011732195e-12         , 1.21688920330787081e-12         , 1.05406033801687346e-12         , 9.24659362136137093e-13         , 8.20140811557402455e-13         , 7.34480578226587585e-13         , 6.63349772471331589e-13         , },
-/* x = 25.3        */  {0.176191389312341317            , 0.00348204326683898963          , 0.000206445252771314764         , 0.000020399728331386007         , 2.82209660140830407e-6          , 5.01953737633060745e-7          , 1.09120174417426981e-7          , 2.80346240906064778e-8          , 8.31045598650660469e-9          , 2.79184710135868201e-9          , 1.04811870521644245e-9          , 4.34786647582654569e-10         , 1.97426965465179543e-10         , 9.73396382364924574e-11         , 5.17367942790973542e-11         , 2.94481935223488744e-11         , 1.78380544926846815e-11         , 1.14301849090044321e-11         , 7.70292549312618373e-12         , 5.4292450866145963e-12          , 3.98126712480235237e-12         , 3.02259901687601229e-12         , 2.36528292218771349e-12         , 1.90018358963393047e-12         , 1.56166377173566218e-12         , 1.30895420853907552e-12         , 1.11597278206566455e-12         , 9.65575406848023623e-13         , 8.46209595131839402e-13         , 7.49911167184676291e-13         , 6.710734585163177e-13           , 6.05672709615121624e-13         , },
-/* x = 25.4        */  {0.17584421382368361             , 0.00346150027193650085          , 0.000204419307214569594         , 0.0000201200103693598583        , 2.77244219047542986e-6          , 4.91180519781726335e-7          , 1.06357803311649976e-7          , 2.72173648363047005e-8          , 8.03644022002755127e-9          , 2.68917666089168245e-9          , 1.00561116515297369e-9          , 4.1552214765829812e-10          , 1.87946850963975466e-10         , 9.23102737584347166e-11         , 4.88792918170636672e-11         , 2.77202774709437656e-11         , 1.67326620950463322e-11         , 1.06863874402682265e-11         , 7.17941325272608013e-12         , 5.04584494448743914e-12         , 3.69052333984462736e-12         , 2.79531672761272962e-12         , 2.18285929363079364e-12         , 1.75037994178115467e-12         , 1.43619074985848844e-12         , 1.20204684197171018e-12         , 1.02352405058374335e-12         , 8.84594636024317738e-13         , 7.74475153748709033e-13         , 6.85742452613648784e-13         , 6.13177904198862629e-13         , 5.53041043016290624e-13         , },
-/* x = 25.5        */  {0.175499082551202029            , 0.00344115848123095227          , 0.00020242108696606653          , 0.0000198452044393503705        , 2.72385142454880077e-6          , 4.80679497989714754e-7          , 1.03675804988688389e-7          , 2.6427000811552835e-8           , 7.77248213155956974e-9          , 2.59066221123055327e-9          , 9.64983500973059677e-10         , 3.97180981503525188e-10         , 1.78955668839737464e-10         , 8.7558201122332705e-11          , 4.61891758146767527e-11         , 2.60992673504148467e-11         , 1.56990945903606196e-11         , 9.99307172014572156e-12         , 6.69282444020846289e-12         , 4.69041255947538195e-12         , 3.42162011892296566e-12         , 2.58554825728182244e-12         , 2.01480610409117093e-12         , 1.61260413587517735e-12         , 1.320959424150288e-12           , 1.10399113782147969e-12         , 9.38825181851506216e-13         , 8.10475899679631021e-13         , 7.08876680939432524e-13         , 6.27107981550568754e-13         , 5.60311905039508022e-13         , 5.0501102848904592e-13          , },
-/* x = 25.6        */  {0.175155975512289159            , 0.00342101514657553308          , 0.000200450106095795587         , 0.0000195752055245529832        , 2.67629748144542359e-6          , 4.70442767795773786e-7          , 1.01071539529068694e-7          , 2.56625467189980178e-8          , 7.51817536952687018e-9          , 2.49612030110863829e-9          , 9.26145778434953409e-10         , 3.79715614881631029e-10         , 1.70426509318027359e-10         , 8.30672044483627161e-11         , 4.3656106541235946e-11          , 2.45782270410415924e-11         , 1.47324838491753216e-11         , 9.34668167633345138e-12         , 6.24046862260074018e-12         , 4.36084909847098605e-12         , 3.17287596964561631e-12         , 2.39191503048744858e-12         , 1.85997033430561305e-12         , 1.48587499705546262e-12         , 1.2151222591229266e-12          , 1.01404541997090825e-12         , 8.61219750468816793e-13         , 7.42632452740906035e-13         , 6.48885150512440057e-13         , 5.73527116888597308e-13         , 5.12035834021764456e-13         , 4.61178138297162711e-13         , },
-/* x = 25.7        */  {0.174814872996740007            , 0.00340106756789578711          , 0.000198505889042622812         , 0.0000193099112512950435        , 2.62975431639137123e-6          , 4.60462683871080114e-7          , 9.85424635414991835e-8          , 2.4923056993981832e-8           , 7.27313148562070542e-9          , 2.40537623943052083e-9          , 8.89012684831841919e-10         , 3.63081125148744341e-10         , 1.62334033649764565e-10         , 7.88220679459317689e-11         , 4.12704141190065479e-11         , 2.31506898954857721e-11         , 1.38283042400162984e-11         , 8.74392006025907872e-12         , 5.81985706781802636e-12         , 4.055217172880268e-12           , 2.94274165212274809e-12         , 2.21314900610528155e-12         , 1.7172929657452511e-12          , 1.36929250263258948e-12         , 1.11790270039903707e-12         , 9.31530807321626773e-13         , 7.90107438719489597e-13         , 6.80528121185053472e-13         , 5.94017467742349043e-13         , 5.2456122253098629e-13          , 4.67948702453443403e-13         , 4.21173580280911428e-13         , },
-/* x = 25.8        */  {0.174475755561996173            , 0.00338131309216581236          , 0.00019658797035382135          , 0.000019049221812574638         , 2.58419663658463246e-6          , 4.50731850562136853e-7          , 9.60861262776758686e-8          , 2.4207624057254956e-8           , 7.03697908146111972e-9          , 2.31826364591876885e-9          , 8.53503275523760577e-10         , 3.47235049042023444e-10         , 1.54654377374728233e-10         , 7.48085112197217716e-11         , 3.90230532461613455e-11         , 2.18106257501572987e-11         , 1.29823477291533692e-11         , 8.18172906262594533e-12         , 5.42868724343693179e-12         , 3.7717281507093812e-12          , 2.7297895823082066e-12          , 2.0480836713967842e-12          , 1.58580121006781617e-12         , 1.26203098880793259e-12         , 1.02858916750795398e-12         , 8.55825848397816646e-13         , 7.24939202281516333e-13         , 6.23672912603836425e-13         , 5.4383245664047669e-13          , 4.79809972828386922e-13         , 4.2768474740915547e-13          , 3.84661127158838712e-13         , },
-/* x = 25.9        */  {0.174138604028491117            , 0.00336174911241012935          , 0.000194695894432123001         , 0.0000187930398940964941        , 2.53959987668453372e-6          , 4.41243112813594436e-7          , 9.37001659176240758e-8          , 2.35153766508204886e-8          , 6.80936299895165356e-9          , 2.2346240263622864e-9           , 8.19540735217601672e-10         , 3.32137239825443246e-10         , 1.47365059833465631e-10         , 7.10131289425669077e-11         , 3.69055610972515742e-11         , 2.05524103322127546e-11         , 1.21907008433768423e-11         , 7.65727241736990025e-12         , 5.06482853274655494e-12         , 3.50873048455497239e-12         , 2.53270409818472897e-12         , 1.89564578019109894e-12         , 1.46460138873633767e-12         , 1.16333293207452186e-12         , 9.46529559765010903e-13         , 7.86361618085146167e-13         , 6.65212855418291346e-13         , 5.71619010144681053e-13         , 4.97927199735183304e-13         , 4.38907987900202423e-13         , 3.90910321900327803e-13         , 3.51334228267278633e-13         , },
-/* x = 26.0        */  {0.173803399475093974            , 0.00334237306673047857          , 0.000192829215290045128         , 0.0000185412706027141656        , 2.49594017519057945e-6          , 4.3198954745434975e-7           , 9.1382306017477292e-8           , 2.28454782526572449e-8          , 6.58994355193905019e-9          , 2.15430637103722673e-9          , 7.87052153089985471e-10         , 3.17749733189646761e-10         , 1.40444899506419465e-10         , 6.74233345890850634e-11         , 3.49100181707160267e-11         , 1.9370796883128874e-11          , 1.14497233528640725e-11         , 7.16791887723944361e-12         , 4.72630907067917696e-12         , 3.26469897282819659e-12         , 2.35027251754300658e-12         , 1.75484777290769125e-12         , 1.35287240782629614e-12         , 1.07250325623307695e-12         , 8.71126231055601769e-13         , 7.22617236416560807e-13         , 6.10469039022716855e-13         , 5.23957116156551319e-13         , 4.5593369924128842e-13          , 4.01521765936348369e-13         , 3.57321060811177482e-13         , 3.2091337848881734e-13          , },
-/* x = 26.1        */  {0.173470123234649488            , 0.00332318243735683128          , 0.000190987496311256684         , 0.0000182938213971913505        , 2.45319435167518255e-6          , 4.22964454831067399e-7          , 8.91303521120079832e-8          , 2.21971255663061133e-8          , 6.37839579692848718e-9          , 2.07716677495899642e-9          , 7.55968310906058685e-10         , 3.04036621342960991e-10         , 1.33873934788571535e-10         , 6.4027307946161297e-11          , 3.30290118701472481e-11         , 1.82608898335172706e-11         , 1.07560285424208184e-11         , 6.71122695354824402e-12         , 4.41130361014405885e-12         , 3.038224878365163e-12           , 2.18137692206077946e-12         , 1.62478082145255343e-12         , 1.24985977773546223e-12         , 9.88904120180596389e-13         , 8.01831393176616117e-13         , 6.64115772815814575e-13         , 5.6028753810225813e-13          , 4.80313114841973409e-13         , 4.17515831257468746e-13         , 3.67346886149560337e-13         , 3.26639298048953849e-13         , 2.93143721385393024e-13         , },
-/* x = 26.2        */  {0.173138756889611648            , 0.00330417474972192136          , 0.000189170310018755644         , 0.0000180506020211986625        , 2.41133988483630401e-6          , 4.14161350774015813e-7          , 8.69421884646157719e-8          , 2.15695470815209455e-8          , 6.17440884073486058e-9          , 2.0030680787058233e-9           , 7.26223483341663245e-10         , 2.90963934768462584e-10         , 1.27633349835250967e-10         , 6.08139461369043024e-11         , 3.12556026219260959e-11         , 1.72181203764955733e-11         , 1.01064649496922525e-11         , 6.28493082122816017e-12         , 4.11812233655528369e-12         , 2.82800683482932741e-12         , 2.02498660784074483e-12         , 1.5046084468317137e-12          , 1.15487013179914024e-12         , 9.1195014548611776e-13          , 7.38142910884709819e-13         , 6.10420502401947345e-13         , 5.1428391822539264e-13          , 4.40345025924753238e-13         , 3.82366567144516944e-13         , 3.36105458392151252e-13         , 2.98611712550537855e-13         , 2.67792865612482231e-13         , },
-/* x = 26.3        */  {0.172809282267768735            , 0.00328534757155862793          , 0.000187377237849638356         , 0.0000178115244384655045        , 2.37035489133749598e-6          , 4.05573958880821688e-7          , 8.4815774957847823e-8           , 2.09620017023912286e-8          , 5.97768518307272538e-9          , 1.93187952863105051e-9          , 6.97755249767051054e-10         , 2.78499531157129235e-10         , 1.21705405140131142e-10         , 5.77728179136920947e-11         , 2.95832923465135399e-11         , 1.62382237985897015e-11         , 9.49809945842597691e-12         , 5.88692729819359085e-12         , 3.84520055501333308e-12         , 2.63284247704218564e-12         , 1.88015114755838175e-12         , 1.39356066172660252e-12         , 1.06726620173326138e-12         , 8.41104046291300431e-13         , 6.79600454992714082e-13         , 5.61131483870126055e-13         , 4.72106453123613484e-13         , 4.03740223811352759e-13         , 3.50205438527567342e-13         , 3.07543797585493897e-13         , 2.73007182784596585e-13         , 2.44648895566274375e-13         , },
-/* x = 26.4        */  {0.172481681438057513            , 0.00326669851201956038          , 0.000185607869936249173         , 0.0000175765027700098688        , 2.3302181054042479e-6           , 3.97196203104421186e-7          , 8.2749144117875768e-8           , 2.03737774395377366e-8          , 5.78794009220215071e-9          , 1.8634764553531074e-9           , 6.70504316797661911e-10         , 2.66612991059818344e-10         , 1.16073372529987317e-10         , 5.48941209935074115e-11         , 2.80059951142463736e-11         , 1.531721843789116e-11           , 8.92820164360102976e-12         , 5.51526381527163626e-12         , 3.59108918071999397e-12         , 2.4516207366315945e-12          , 1.74599401394205678e-12         , 1.29092859430175645e-12         , 9.86462211410680677e-13         , 7.75872627291459148e-13         , 6.25781982769071827e-13         , 5.15882431121078259e-13         , 4.3343331808112507e-13          , 3.70212898973637145e-13         , 3.20776224451864687e-13         , 2.81430303054255676e-13         , 2.49614831206619269e-13         , 2.23518558922579317e-13         , },
-/* x = 26.5        */  {0.172155936706464366            , 0.00324822522081821787          , 0.000183861804893506311         , 0.0000173454532333719324        , 2.29090885914687524e-6          , 3.89022200632127141e-7          , 8.07403982666841478e-8          , 1.98041901631651924e-8          , 5.60490101185545594e-9          , 1.7977399694793213e-9           , 6.44414350961667603e-10         , 2.55275519831250903e-10         , 1.10721474282642433e-10         , 5.21686422250441319e-11         , 2.6518009829008863e-11          , 1.44513861491044377e-11         , 8.39422927327388197e-12         , 5.16812729960974112e-12         , 3.35444596882300215e-12         , 2.28331474920243876e-12         , 1.62170671849383559e-12         , 1.19605955319859309e-12         , 9.1191965375127693e-13          , 7.15803118492181819e-13         , 5.76300517554919246e-13         , 4.74337853235268257e-13         , 3.97970025967487843e-13         , 3.39501740331226985e-13         , 2.93844841122559599e-13         , 2.57553524627623994e-13         , 2.28242241779396042e-13         , 2.04225615279647795e-13         , },
-/* x = 26.6        */  {0.171832030612011287            , 0.00322992538739111578          , 0.000182138649612207139         , 0.0000171182940837802291        , 2.25240706358146796e-6          , 3.81046255043340285e-7          , 7.87877067960382462e-8          , 1.92525824139283601e-8          , 5.4283069977709955e-9           , 1.73455667358267823e-9          , 6.19431820875233928e-10         , 2.44459855467508854e-10         , 1.05634826094816958e-10         , 4.95877203921425277e-11         , 2.51139947947256913e-11         , 1.36372541642594657e-11         , 7.89381487939101435e-12         , 4.843833900591391e-12           , 3.1340274250424288e-12          , 2.12697532364902995e-12         , 1.50654342319305818e-12         , 1.10835249703898333e-12         , 8.43143418500654332e-13         , 6.60479818121954368e-13         , 5.30801201941548548e-13         , 4.36190439599518915e-13         , 3.65447084795751731e-13         , 3.11367819280702428e-13         , 2.69197416390924079e-13         , 2.35720398981977442e-13         , 2.08713835178481137e-13         , 1.86609331530937534e-13         , },
-/* x = 26.7        */  {0.171509945922824607            , 0.00321179674008029042          , 0.000180438019058123085         , 0.0000168949455571819644        , 2.2146931903216334e-6           , 3.73262849734010739e-7          , 7.68893035575953377e-8          , 1.87183222687305673e-8          , 5.25790818225526987e-9          , 1.67381838950959718e-9          , 5.95505848354967197e-10         , 2.34140181964929081e-10         , 1.00799383645435781e-10         , 4.71432114720748377e-11         , 2.37889440303168995e-11         , 1.28715782462938559e-11         , 7.424753316629426e-12           , 4.54081949291522237e-12         , 2.92868134316356928e-12         , 1.98172492827628989e-12         , 1.39981598643590117e-12         , 1.02725387484595065e-12         , 7.79678241409694657e-13         , 6.09521017534420904e-13         , 4.88958601067782757e-13         , 4.01158669011669884e-13         , 3.35617857537396644e-13         , 2.85592657722543799e-13         , 2.4663853272737314e-13          , 2.1575464116782932e-13          , 1.90869387674227465e-13         , 1.70523110880705844e-13         , },
-/* x = 26.8        */  {0.171189665632284498            , 0.00319383704533561263          , 0.000178759536076701048         , 0.0000166753298150717082        , 2.17774825391493054e-6          , 3.65666641596505491e-7          , 7.50434843638037284e-8          , 1.82008022587270132e-8          , 5.0934652652840417e-9           , 1.61542190015201766e-9          , 5.72588067932980843e-10         , 2.2429204785283648e-10          , 9.6201892517437998e-11          , 4.48274561801378283e-11         , 2.25381652086410262e-11         , 1.21513270404855859e-11         , 6.98499023459870909e-12         , 4.25763089666408664e-12         , 2.73733991982613202e-12         , 1.84675215210829344e-12         , 1.30088940768024418e-12         , 9.52253806610590582e-13         , 7.21105447830094009e-13         , 5.62576184175221534e-13         , 4.50474234620765969e-13         , 3.68984623430133886e-13         , 3.0825660661146403e-13          , 2.61976463989649952e-13         , 2.25989623859484911e-13         , 1.9749527760127395e-13          , 1.74562680931209084e-13         , 1.55833243586593245e-13         , },
-/* x = 26.9        */  {0.170871172955253268            , 0.00317604410693635812          , 0.00017710283120319468          , 0.0000164593708910552567        , 2.14155379479900017e-6          , 3.58252454944059737e-7          , 7.32486045944994309e-8          , 1.76994383369499048e-8          , 4.93474903073719047e-9          , 1.55926870486885714e-9          , 5.50632494273616384e-10         , 2.14892289575431597e-10         , 9.1829841257382948e-11          , 4.26332496439934863e-11         , 2.1357259104091078e-11          , 1.14736675358906529e-11         , 6.57261139451461165e-12         , 3.99291775894531692e-12         , 2.55901340102903268e-12         , 1.72130660316635827e-12         , 1.20917763821122376e-12         , 8.8288257581665502e-13          , 6.67039966029591667e-13         , 5.19323380736198715e-13         , 4.15074317971695269e-13         , 3.39431988715407695e-13         , 2.83156707003004801e-13         , 2.40336521996935322e-13         , 2.07087511563332872e-13         , 1.80795308018324155e-13         , 1.59660271103289796e-13         , 1.42417768579489654e-13         , },
-/* x = 27.0        */  {0.170554451324380554            , 0.00315841576523150046          , 0.000175467542478055048         , 0.0000162469946390878967        , 2.10609186285345297e-6          , 3.51015275669486299e-7          , 7.15030769043617177e-8          , 1.72136688931089961e-8          , 4.78153988644108153e-9          , 1.50526478779040457e-9          , 5.29595397022243478e-10         , 2.05918959419455073e-10         , 8.76714173672394e-11            , 4.0553813062304554e-11          , 2.02421004419571088e-11         , 1.08359515555595754e-11         , 6.18583276677421767e-12         , 3.74542504605574259e-12         , 2.39278421843355384e-12         , 1.60469420862041498e-12         , 1.12413972814179816e-12         , 8.18707408097678545e-13         , 6.17127587623353595e-13         , 4.79466900490959787e-13         , 3.82507694565481976e-13         , 3.1228422624388025e-13          , 2.60129013368496472e-13         , 2.20505720222059809e-13         , 1.89783070290263078e-13         , 1.65520485000109484e-13         , 1.46040366638284746e-13         , 1.30165436081412708e-13         , },
-/* x = 27.1        */  {0.170239484386483585            , 0.00314094989639820879          , 0.000173853315267416206         , 0.0000160381286833286537        , 2.07134500152458624e-6          , 3.43950245628289201e-7          , 6.98053690266269323e-8          , 1.67429538132499749e-8          , 4.63362742676657088e-9          , 1.45332039828469047e-9          , 5.09435182645897372e-10         , 1.97351257704102646e-10         , 8.37154660367689934e-11         , 3.85827672125044913e-11         , 1.91888200504822852e-11         , 1.02357032004152189e-11         , 5.82299135076366013e-12         , 3.51398609914611397e-12         , 2.23780157691204026e-12         , 1.49627288458051813e-12         , 1.04527628223540222e-12         , 7.593295123647617e-13           , 5.71042454431796056e-13         , 4.42735100515671875e-13         , 3.52543943224265152e-13         , 2.8734290067357169e-13          , 2.39000367765142976e-13         , 2.02331208303896141e-13         , 1.73940008399130644e-13         , 1.51548200687620661e-13         , 1.33591805149229005e-13         , 1.18974762225490082e-13         , },
-/* x = 27.2        */  {0.169926255999000692            , 0.00312364441171804897          , 0.000172259802088516891         , 0.0000158327023695543458        , 2.03729623250096281e-6          , 3.37052657236776138e-7          , 6.81540016686855537e-8          , 1.62867735820747942e-8          , 4.490810016600708e-9            , 1.40334984290751175e-9          , 4.90112282852928795e-10         , 1.89169468968163748e-10         , 7.99514514379479668e-11         , 3.67141076820827639e-11         , 1.8193788223765401e-11          , 9.67060717731249664e-12         , 5.48253666274431221e-12         , 3.29751621005818918e-12         , 2.09327645787940826e-12         , 1.39544854592171496e-12         , 9.7212619940349397e-13          , 7.04381362723280167e-13         , 5.28484752825445506e-13         , 4.08878416061548457e-13         , 3.24971645431911137e-13         , 2.64426150418507978e-13         , 2.19612235807851015e-13         , 1.85673170118001694e-13         , 1.59433755755391204e-13         , 1.38766471225376598e-13         , 1.22213120568022199e-13         , 1.08753167486259972e-13         , },
-/* x = 27.3        */  {0.169614750226516342            , 0.00310649725687040207          , 0.000170686662439905073         , 0.0000156306467180794171        , 2.00392904091880451e-6          , 3.30317948276191337e-7          , 6.65475464954013025e-8          , 1.58446284258429184e-8          , 4.35289439557601075e-9          , 1.35527128819777645e-9          , 4.7158904920447187e-10          , 1.81354901906599282e-10         , 7.6369420414985256e-11          , 3.49421817066125073e-11         , 1.72535992103470549e-11         , 9.13849794700505668e-12         , 5.16302284182359448e-12         , 3.09500667741007544e-12         , 1.95847700578322604e-12         , 1.30167142894488764e-12         , 9.04263672806998519e-13         , 6.5352420130949525e-13          , 4.89178598218311303e-13         , 3.7766754077354414e-13          , 2.99596798951796263e-13         , 2.43367288554020481e-13         , 2.0181946012209791e-13          , 1.70403703166349645e-13         , 1.46150448361918166e-13         , 1.27073010312103239e-13         , 1.11811692579223305e-13         , 9.94161914605150731e-14         , },
-/* x = 27.4        */  {0.169304951337355985            , 0.00308950641124262955          , 0.000169133562636277423         , 0.0000154318943781295853        , 1.97122736107703019e-6          , 3.23741696894296147e-7          , 6.49846241961937005e-8          , 1.54160374938809357e-8          , 4.21969530150312424e-9          , 1.30900657371734095e-9          , 4.53829653554500919e-10         , 1.73889832824848385e-10         , 7.29599684147570268e-11         , 3.32616665059506913e-11         , 1.63650567485007459e-11         , 8.6373496325491577e-12          , 4.86310132785029379e-12         , 2.90551930613561872e-12         , 1.83272426773574574e-12         , 1.21443270188676648e-12         , 8.4129542939335956e-13          , 6.06445743837590383e-13         , 4.52870093835558349e-13         , 3.48891758754969648e-13         , 2.76241365303937673e-13         , 2.24013522939145201e-13         , 1.85489120931909057e-13         , 1.56405795010280858e-13         , 1.33986001509811282e-13         , 1.1637438400057398e-13          , 1.02302971043906493e-13         , 9.08867772053012248e-14         , },
-/* x = 27.5        */  {0.168996843800249066            , 0.00307266988725652862          , 0.0001676001756478108           , 0.0000152363795836193118        , 1.93917556264260599e-6          , 3.17319616796210925e-7          , 6.34639026321175841e-8          , 1.50005380768304645e-8          , 4.09103511201098043e-9          , 1.26448103476970224e-9          , 4.36799993977659966e-10         , 1.6675745239414209e-10          , 6.97142075129495219e-11         , 3.16675490176489762e-11         , 1.55251605749723273e-11         , 8.16526663311187522e-12         , 4.58151406860770502e-12         , 2.72818131656381655e-12         , 1.7153882586670768e-12          , 1.13326134032068157e-12         , 7.82858189444767742e-13         , 5.62858071167111311e-13         , 4.19325549220753291e-13         , 3.22357415670718959e-13         , 2.54741939699626104e-13         , 2.06224785313405887e-13         , 1.70499494507988089e-13         , 1.43572388288709334e-13         , 1.22845263687902873e-13         , 1.06585239584838335e-13         , 9.36097687720201164e-14         , 8.30946189463431229e-14         , },
-/* x = 27.6        */  {0.168690412281058598            , 0.00305598572971063569          , 0.000166086180943847822         , 0.0000150440381102849969        , 1.9077584373276756e-6           , 3.11047552616699194e-7          , 6.19840950593551856e-8          , 1.45976848598610964e-8          , 3.96674350345347021e-9          , 1.2216233342649294e-9           , 4.20467605865013912e-10         , 1.59941815505079737e-10         , 6.6623736400941001e-11          , 3.0155106933670912e-11          , 1.47310938392069554e-11         , 7.72047489224838812e-12         , 4.31708721693495196e-12         , 2.56218063177468716e-12         , 1.60588432658013346e-12         , 1.05772124635098287e-12         , 7.28616328311551602e-13         , 5.22495691592082104e-13         , 3.88329845173348676e-13         , 2.97886517172282733e-13         , 2.34948533010989219e-13         , 1.89872660011735293e-13         , 1.56739101009199573e-13         , 1.31805526605016192e-13         , 1.12641244173645055e-13         , 9.76276020472297927e-14         , 8.56616165923165619e-14         , 7.59755675224751219e-14         , },
-/* x = 27.7        */  {0.168385641639575727            , 0.00303945201513794911          , 0.000164591264340803266         , 0.0000148548072341276163        , 1.87696118602070263e-6          , 3.04921475466424825e-7          , 6.05439584257091106e-8          , 1.42070492091666082e-8          , 3.84665712619333532e-9          , 1.18036530322921218e-9          , 4.048015778874853e-10           , 1.53427794029762555e-10         , 6.36806122075125088e-11         , 2.87198909530589702e-11         , 1.39802113600044481e-11         , 7.30131377349789218e-12         , 4.06872528140954673e-12         , 2.4067615144073876e-12          , 1.50366979451106131e-12         , 9.87408592212337537e-13         , 6.78259723969952976e-13         , 4.85113759827117382e-13         , 3.59684932928163869e-13         , 2.75315443924577708e-13         , 2.1672345624746179e-13          , 1.74839403750538965e-13         , 1.4410583398793715e-13          , 1.21015574242146207e-13         , 1.0329440785148506e-13          , 8.9430232115322732e-14          , 7.83941752068280164e-14         , 6.94710884344898903e-14         , },
-/* x = 27.8        */  {0.168082516926377776            , 0.00302306685117865555          , 0.000163115117854162589         , 0.0000146686256911202555        , 1.84676940635458727e-6          , 2.98937478645045851e-7          , 5.91422917368483489e-8          , 1.38282184901491434e-8          , 3.73061929542267961e-9          , 1.14064178948649981e-9          , 3.89772472545095907e-10         , 1.47201032314943347e-10         , 6.08773240379052697e-11         , 2.73577081692710031e-11         , 1.32700286660818904e-11         , 6.90622849964408002e-12         , 3.83540569699285084e-12         , 2.26122052634172849e-12         , 1.40824085765821085e-12         , 9.21949370453054458e-13         , 6.31501775386783276e-13         , 4.50486439832628428e-13         , 3.33208456414371379e-13         , 2.54493773425948531e-13         , 1.9994029882833826e-13          , 1.61017048676701457e-13         , 1.32506164502658284e-13         , 1.11120503281958909e-13         , 9.47320313730893213e-14         , 8.19280405054337697e-14         , 7.17486988067737174e-14         , 6.35277678246263137e-14         , },
-/* x = 27.9        */  {0.167781023379748275            , 0.00300682837596745727          , 0.000161657439554448251         , 0.0000144854336381376678        , 1.81716908069541727e-6          , 2.9309177351432552e-7           , 5.7777934489214862e-8           , 1.34607954157778099e-8          , 3.61847969672537161e-9          , 1.10239051406702338e-9          , 3.75352251037312387e-10         , 1.41247905240002638e-10         , 5.82067681205850846e-11         , 2.60646065165450568e-11         , 1.25982117662240786e-11         , 6.53376311521658305e-12         , 3.61617378459321019e-12         , 2.12490278674127223e-12         , 1.31912971585182046e-12         , 8.60997134320867584e-13         , 5.88077577905033866e-13         , 4.18405399689846639e-13         , 3.08732487370079919e-13         , 2.35283199645889791e-13         , 1.84482992687166203e-13         , 1.48306581545845841e-13         , 1.218544133947167e-13           , 1.02045242267151238e-13         , 8.68876152917629401e-14         , 7.50615534089165153e-14         , 6.56715458729951322e-14         , 5.80968621297447498e-14         , },
-/* x = 28.0        */  {0.167481146422657556            , 0.00299073475753510921          , 0.000160217933427033707         , 0.0000143051726150665808        , 1.78814656453617955e-6          , 2.87380685524742952e-7          , 5.6449765166645746e-8           , 1.31043974236854286e-8          , 3.51009410562983456e-9          , 1.06555193492315167e-9          , 3.61514202205878352e-10         , 1.35555478684156275e-10         , 5.56622244593732195e-11         , 2.48368602048863655e-11         , 1.1962567598593533e-11          , 6.18255393479497209e-12         , 3.41013807085625204e-12         , 1.99719850584932673e-12         , 1.2359019231077217e-12          , 8.04230913290922906e-13         , 5.47742242993785233e-13         , 3.8867842771519954e-13          , 2.86102363947492141e-13         , 2.17556542266841537e-13         , 1.70244954925848784e-13         , 1.36617192512010181e-13         , 1.12072085846758909e-13         , 9.37210810568607482e-14         , 7.97003472755950152e-14         , 6.87764247145517065e-14         , 6.01137329904380426e-14         , 5.31338875307625053e-14         , },
-/* x = 28.1        */  {0.167182871659802484            , 0.00297478419322378725          , 0.000158796309235688985         , 0.000014127785508057013         , 1.75968857528039675e-6          , 2.81800650389373251e-7          , 5.51566997979059032e-8          , 1.27586560806402622e-8          , 3.40532412044145784e-9          , 1.03006911755713132e-9          , 3.4823287531657459e-10          , 1.30111472257189737e-10         , 5.32373348953978795e-11         , 2.36709560781306736e-11         , 1.13610351123758906e-11         , 5.85132344243590203e-12         , 3.21646594166387597e-12         , 1.8775397736815796e-12          , 1.15815393745288527e-12         , 7.51353289888854474e-13         , 5.10269350741320123e-13         , 3.61128159900195577e-13         , 2.65175624229631249e-13         , 2.01196838012994175e-13         , 1.57128302359565705e-13         , 1.25865587573231066e-13         , 1.03087262851096989e-13         , 8.60851269947510107e-14         , 7.311461193430911e-14           , 6.30229908585851542e-14         , 5.50305278763948487e-14         , 4.85982456664938107e-14         , },
-/* x = 28.2        */  {0.166886184874703995            , 0.00295897490911592006          , 0.000157392282389745691         , 0.0000139532165138763343        , 1.73178218140126134e-6          , 2.76348210399080699e-7          , 5.38976905724589897e-8          , 1.24232165130986915e-8          , 3.30403690768226435e-9          , 9.95887612187904791e-10         , 3.35484016460452611e-10         , 1.24904224157248955e-10         , 5.0926082489646493e-11          , 2.25635808340513929e-11         , 1.07916769382752455e-11         , 5.5388746100942971e-12          , 3.03437960482729516e-12         , 1.76539758437299605e-12         , 1.08551085553884927e-12         , 7.0208862507577411e-13          , 4.75449524420060766e-13         , 3.35590909584374616e-13         , 2.45821026799013217e-13         , 1.86096507186025384e-13         , 1.45043131863110461e-13         , 1.15975359231004424e-13         , 9.48340446829337333e-14         , 7.90798079349596594e-14         , 6.70795431872166347e-14         , 5.77558645568720764e-14         , 5.03810781594271177e-14         , 4.4452882394703743e-14          , },
-/* x = 28.3        */  {0.166591072026861071            , 0.0029433051594761279           , 0.00015600557381477301          , 0.0000137814111053292171        , 1.70441479196242335e-6          , 2.71020010873329535e-7          , 5.26717245119305028e-8          , 1.20977368626102139e-8          , 3.20610495950167452e-9          , 9.62955337105477674e-10         , 3.2324450836829762e-10          , 1.19922658027841335e-10         , 4.87227721427901096e-11         , 2.15116090496700044e-11         , 1.02526716074674846e-11         , 5.24408560526725371e-12         , 2.86315233930838115e-12         , 1.66027907842307572e-12         , 1.01762431778051516e-12         , 6.56181420484957047e-13         , 4.43089117323018247e-13         , 3.11915591021435619e-13         , 2.27917651157089037e-13         , 1.72156589110221106e-13         , 1.33906860949644874e-13         , 1.06876410390496586e-13         , 8.72520418990253316e-14         , 7.26524180603860509e-14         , 6.15486154574335814e-14         , 5.29335640042972093e-14         , 4.61280727530573014e-14         , 4.06639766697173726e-14         , },
-/* x = 28.4        */  {0.166297519248959897            , 0.00292777322620592273          , 0.000154635909826659896         , 0.000013612315997707982         , 1.67757414648714392e-6          , 2.65812796741165413e-7          , 5.14778221948366151e-8          , 1.17818877649080316e-8          , 3.11140586245634992e-9          , 9.31222467881305446e-10         , 3.11492313444454299e-10         , 1.15156251694256003e-10         , 4.66220123744381826e-11         , 2.05120919588231561e-11         , 9.74230628148637177e-12         , 4.96590486026946272e-12         , 2.70210501000975433e-12         , 1.56172498645286257e-12         , 9.54170570881177666e-13         , 6.13394806739511884e-13         , 4.13009002870451846e-13         , 2.89962729188190618e-13         , 2.11354071396001724e-13         , 1.59286040722196813e-13         , 1.23643623488449852e-13         , 9.85044269565976079e-14         , 8.02859097709010455e-14         , 6.67547027827193097e-14         , 5.64792703037018207e-14         , 4.85181744280229782e-14         , 4.2237432948134808e-14          , 3.72006568668472653e-14         , },
-/* x = 28.5        */  {0.166005512844136918            , 0.002912377418310834            , 0.000153283022009002148         , 0.0000134458791162391434        , 1.65124830516306032e-6          , 2.60723409247157491e-7          , 5.03150365322660801e-8          , 1.14753518515770737e-8          , 3.01982207708930295e-9          , 9.0064133212197039e-10          , 3.00206419837747359e-10         , 1.10595007667137835e-10         , 4.46186981890935481e-11         , 1.95622469326579079e-11         , 9.2589699581741326e-12          , 4.70334647756512089e-12         , 2.55060282874878585e-12         , 1.4693072593486312e-12          , 8.94848675637967327e-13         , 5.73509147943277836e-13         , 3.85043459718418968e-13         , 2.69603548817846022e-13         , 1.96027597075954816e-13         , 1.47401093027719513e-13         , 1.14183715902892328e-13         , 9.08003949719959582e-14         , 7.38849224163831478e-14         , 6.13424793373746034e-14         , 5.18325753985552411e-14         , 4.44750391557841105e-14         , 3.86780306026896154e-14         , 3.40347421215107386e-14         , },
-/* x = 28.6        */  {0.16571503928329457             , 0.00289711607137963462          , 0.00015194664709369639          , 0.0000132820495644932103        , 1.62542563937031728e-6          , 2.55748782777316993e-7          , 4.91824515923105488e-8          , 1.11778232732467413e-8          , 2.93124072776883899e-9          , 8.71166309471096731e-10         , 2.89366790378099791e-10         , 1.06229425307981919e-10         , 4.27079949608401097e-11         , 1.86594476170886868e-11         , 8.80114712129134069e-12         , 4.45548594744613677e-12         , 2.40805234348427244e-12         , 1.38262687082956528e-12         , 8.39378848872463784e-13         , 5.36320753229917895e-13         , 3.59039144273373103e-13         , 2.5071913621815456e-13          , 1.81843575766622197e-13         , 1.36424660593848644e-13         , 1.05463089587080941e-13         , 8.37101585006487713e-14         , 6.80025832168397014e-14         , 5.63752899818644713e-14         , 4.75729130327393271e-14         , 4.07724776107742173e-14         , 3.54214310403115805e-14         , 3.11405064672928321e-14         , },
-/* x = 28.7        */  {0.165426085202468511            , 0.00288198754707535107          , 0.000150626526844646242         , 0.0000131207775937259976        , 1.60009482252130723e-6          , 2.50885941800223299e-7          , 4.80791814711412634e-8          , 1.08890072433081648e-8          , 2.84555340227656286e-9          , 8.42753736581076736e-10         , 2.78954314217642752e-10         , 1.02050474557887348e-10         , 4.0885323273234233e-11          , 1.78012146843744216e-11         , 8.36741180366455326e-12         , 4.22145615607156828e-12         , 2.27389863920652598e-12         , 1.30131177954793261e-12         , 7.87500929205812122e-13         , 5.01640686983467299e-13         , 3.34854143633993017e-13         , 2.3319966796567401e-13          , 1.68714752173518413e-13         , 1.26285799652339775e-13         , 9.74228856427864791e-14         , 7.71840147862806962e-14         , 6.25962684030712542e-14         , 5.18160849755879958e-14         , 4.36676955730542553e-14         , 3.73815278728234676e-14         , 3.24416584796613079e-14         , 2.84944637542737677e-14         , },
-/* x = 28.8        */  {0.165138637400245154            , 0.00286699023263775122          , 0.000149322407944489056         , 0.0000129620145731208552        , 1.57524482120072851e-6          , 2.46131997918793973e-7          , 4.70043692087276033e-8          , 1.06086196012054703e-8          , 2.76265596066073438e-9          , 8.1536181679181823e-10          , 2.68950761024666528e-10         , 9.80495711370528255e-11         , 3.91463446550079972e-11         , 1.69852071588792636e-11         , 7.95642203586780857e-12         , 4.0004436634793768e-12          , 2.147622735140735e-12           , 1.22501503881753317e-12         , 7.38972957202418681e-13         , 4.69293670012762959e-13         , 3.12357102547628657e-13         , 2.1694370105379219e-13          , 1.56560679193727768e-13         , 1.16919210763253555e-13         , 9.00090083701141032e-14         , 7.11763435135633037e-14         , 5.76269009624545786e-14         , 4.76309327648567345e-14         , 4.00871055262634659e-14         , 3.42757116535186249e-14         , 2.97149820104731616e-14         , 2.60751715084117725e-14         , },
-/* x = 28.9        */  {0.164852682835228414            , 0.00285212254039701202          , 0.000148034041884254629         , 0.000012805712960902329         , 1.55086488659511718e-6          , 2.41484147028330877e-7          , 4.59571857472856362e-8          , 1.03363863943976365e-8          , 2.68244835289679358e-9          , 7.88950534268436194e-10         , 2.59338737587723335e-10         , 9.42185531282406771e-11         , 3.74869481560494234e-11         , 1.62092142797812574e-11         , 7.5669146543981842e-12          , 3.79168523265862349e-12         , 2.0287391640577582e-12          , 1.15341304297624769e-12         , 6.93569861146881751e-13         , 4.39117064577088594e-13         , 2.91426418488365937e-13         , 2.01857519518064003e-13         , 1.45307176633180762e-13         , 1.08264782328965922e-13         , 8.31717342488320808e-14         , 6.56452672718662269e-14         , 5.30586522661985039e-14         , 4.37887550212736447e-14         , 3.68038580673208722e-14         , 3.14308197224634199e-14         , 2.72197203070317946e-14         , 2.38630520562289866e-14         , },
-/* x = 29.0        */  {0.164568208623554517            , 0.00283738290729827846          , 0.000146761184855870152         , 0.0000126518262762928309        , 1.52694454620143538e-6          , 2.3693966657666127e-7           , 4.49368289306329178e-8          , 1.0072043478132124e-8           , 2.60483444492098487e-9          , 7.63481572363655261e-10         , 2.50101646695598487e-10         , 9.05496588628074232e-11         , 3.59032377117212593e-11         , 1.54711478660050654e-11         , 7.19770044512757021e-12         , 3.59446459213727317e-12         , 1.91679372054340993e-12         , 1.08620390022749716e-12         , 6.51082240400426007e-13         , 4.10959936725483965e-13         , 2.71949499440623833e-13         , 1.87854532971170429e-13         , 1.34885833672804072e-13         , 1.00267171561008464e-13         , 7.68653534246500954e-14         , 6.05523405701752135e-14         , 4.88586690403662689e-14         , 4.02610843862365511e-14         , 3.37929840776778969e-14         , 2.88247159946542729e-14         , 2.49360634301191347e-14         , 2.18402293879237056e-14         , },
-/* x = 29.1        */  {0.164285202036453842            , 0.00282276979443683302          , 0.000145503597647428499         , 0.000012500309072284916         , 1.50347359580470836e-6          , 2.32495912922370954e-7          , 4.39425225427095331e-8          , 9.81533613221371578e-9          , 2.52972185262577431e-9          , 7.38918235983719782e-10         , 2.41223648166752645e-10         , 8.70355060329232579e-11         , 3.43915202469340722e-11         , 1.47690351509910631e-11         , 6.84765959950320918e-12         , 3.40810941580620509e-12         , 1.81136136605361559e-12         , 1.02310592257899286e-12         , 6.11315238910529549e-13         , 3.84682189931574966e-13         , 2.53822079409956932e-13         , 1.74854722854575669e-13         , 1.25233551496130988e-13         , 9.28754197878688012e-14         , 7.10478409683488557e-14         , 5.58622649789890666e-14         , 4.49968235095620643e-14         , 3.70218429610800542e-14         , 3.10316319104376758e-14         , 2.64371586464435956e-14         , 2.28459102142309603e-14         , 1.99903803676315864e-14         , },
-/* x = 29.2        */  {0.16400365049785871             , 0.00280828168660360363          , 0.000144261045541139609         , 0.0000123511169092027451        , 1.48044209171509395e-6          , 2.28150318787296515e-7          , 4.29735153836050096e-8          , 9.56601869399205513e-9          , 2.4570217834272555e-9           , 7.15225377748873938e-10         , 2.32689621909238001e-10         , 8.36690719583029534e-11         , 3.29482944745181914e-11         , 1.41010120570864595e-11         , 6.51573746253816535e-12         , 3.23198850487159666e-12         , 1.71204427948482785e-12         , 9.63856224210509744e-13         , 5.7408750202503923e-13          , 3.60153764483234614e-13         , 2.36947587084599314e-13         , 1.6278413255758599e-13          , 1.16292122788880951e-13         , 8.60425992533235062e-14         , 6.56805554075454582e-14         , 5.15426281826057777e-14         , 4.1445484729577819e-14          , 3.40471397527752461e-14         , 2.84988862550871318e-14         , 2.42496367711372685e-14         , 2.09327198697183015e-14         , 1.82985990230696294e-14         , },
-/* x = 29.3        */  {0.163723541582056126            , 0.00279391709184074551          , 0.000143033298213887323         , 0.0000122042063290272565        , 1.45784034325514351e-6          , 2.23900390799605899e-7          , 4.20290803815064675e-8          , 9.32385420682932061e-9          , 2.38664888503504982e-9          , 6.92369327751023157e-10         , 2.24485132899036691e-10         , 8.04436749401686111e-11         , 3.15702403453581597e-11         , 1.34653168813662815e-11         , 6.2009405530887321e-12          , 3.06550915791268486e-12         , 1.61847004282258247e-12         , 9.08209420260329747e-13         , 5.39230210293884692e-13         , 3.37253897525321423e-13         , 2.21236563440232718e-13         , 1.51574397869618486e-13         , 1.08007845093919738e-13         , 7.97254887941380551e-14         , 6.07279622429110988e-14         , 4.75636649148932703e-14         , 3.8179309296410556e-14          , 3.1315085440611967e-14          , 2.61756026167877131e-14         , 2.22452212161604342e-14         , 1.91813765505728228e-14         , 1.67512727593010919e-14         , },
-/* x = 29.4        */  {0.163444863011384467            , 0.00277967454100704014          , 0.000141820129640316555         , 0.0000120595348304604722        , 1.43565890548837242e-6          , 2.19743707123951435e-7          , 4.1108513739055415e-8           , 9.08861408334545935e-9          , 2.31852110107439635e-9          , 6.70317826722063827e-10         , 2.16596397971289589e-10         , 7.73529566392805521e-11         , 3.02542091104773436e-11         , 1.28602843665739573e-11         , 5.90233283826721005e-12         , 2.90811471602660194e-12         , 1.53028995220135651e-12         , 8.55936418626868496e-13         , 5.06586184431215987e-13         , 3.15870439057314527e-13         , 2.06606124419223967e-13         , 1.41162314520464036e-13         , 1.00331165255017963e-13         , 7.38842760049474662e-14         , 5.61573803545515917e-14         , 4.38980379249682087e-14         , 3.51750497753143082e-14         , 2.88056229712034186e-14         , 2.40442560549539235e-14         , 2.04084283630523184e-14         , 1.757806574889778e-14           , 1.53359694438412799e-14         , },
-/* x = 29.5        */  {0.16316760265397315             , 0.00276555258735286219          , 0.000140621317998378058         , 0.0000119170608447052402        , 1.41388857218060273e-6          , 2.15677915175327191e-7          , 4.02111341126691319e-8          , 8.86007778277251517e-9          , 2.25255953322826116e-9          , 6.49039962436612212e-10         , 2.09010254325005302e-10         , 7.43908654187252908e-11         , 2.89972139578027542e-11         , 1.22843401326228757e-11         , 5.61903224509319416e-12         , 2.75928227097260071e-12         , 1.44717744542087175e-12         , 8.06823297941857271e-13         , 4.76009056061793486e-13         , 2.95899219558765597e-13         , 1.92979465126655415e-13         , 1.31489439828367512e-13         , 9.32163524118748178e-14         , 6.84822836985623393e-14         , 5.19387493815803587e-14         , 4.05206372775974372e-14         , 3.24113793362420426e-14         , 2.65003726186718555e-14         , 2.20888029441993774e-14         , 1.87250957203419615e-14         , 1.61101614776438466e-14         , 1.40413344036794213e-14         , },
-/* x = 29.6        */  {0.162891748521524333            , 0.00275154980610447186          , 0.00013943664557726041          , 0.0000117767437119375459        , 1.39252036898586978e-6          , 2.11700729413403673e-7          , 3.93362818234478013e-8          , 8.63803250178194014e-9          , 2.18868830958443481e-9          , 6.28506109182514028e-10         , 2.01714129647587926e-10         , 7.15516405957565057e-11         , 2.77964211887134851e-11         , 1.17359954457310105e-11         , 5.35020739365162115e-12         , 2.61852052509013012e-12         , 1.36882663762217439e-12         , 7.60670265388014271e-13         , 4.47362499290864688e-13         , 2.77243465256768301e-13         , 1.80285402271159692e-13         , 1.22501725718855361e-13         , 8.66211972187410561e-14         , 6.34857186534127961e-14         , 4.80444163200860037e-14         , 3.7408396437886895e-14          , 2.98687312123466494e-14         , 2.43824902650855139e-14         , 2.02945546286890754e-14         , 1.7182268298546745e-14          , 1.47661232948133101e-14         , 1.2856996459836181e-14          , },
-/* x = 29.7        */  {0.162617288767135735            , 0.00273766479405739765          , 0.000138265898687641048         , 0.0000116385436584493357        , 1.37154554684900088e-6          , 2.07809929214247644e-7          , 3.84833180983506105e-8          , 8.42227287817946316e-9          , 2.12683445888878995e-9          , 6.08687870141609502e-10         , 1.94696013770921816e-10         , 6.88297975503625169e-11         , 2.66491419016921422e-11         , 1.12138423037791062e-11         , 5.09507453710793306e-12         , 2.48536779256406422e-12         , 1.29495095743537621e-12         , 7.17290688510821054e-13         , 4.20519518519429171e-13         , 2.59813257363539312e-13         , 1.68457951840966145e-13         , 1.14149180600251983e-13         , 8.05067351512826786e-14         , 5.88634408077958986e-14         , 4.44489397330263143e-14         , 3.45401237221152397e-14         , 2.75291517172261459e-14         , 2.24365377641134944e-14         , 1.86480619394208423e-14         , 1.57680948269754857e-14         , 1.35354023058402272e-14         , 1.17734822025523518e-14         , },
-/* x = 29.8        */  {0.162344211683163666            , 0.00272389616917868073          , 0.000137108867574190401         , 0.0000115024217744405661        , 1.35095557561727681e-6          , 2.04003356816463528e-7          , 3.76516243403831169e-8          , 8.21260070689119933e-9          , 2.06692779042119044e-9          , 5.89558022531798622e-10         , 1.87944431775824399e-10         , 6.62201136413971935e-11         , 2.55528241524680505e-11         , 1.0716548817897007e-11          , 4.85289469493589842e-12         , 2.35939013235069481e-12         , 1.22528187647368952e-12         , 6.76510195613961591e-13         , 3.95361788279345843e-13         , 2.4352503190094216e-13          , 1.57435939246595651e-13         , 1.06385557786422453e-13         , 7.48369919425590944e-14         , 5.45867512143542917e-14         , 4.11289101012585276e-14         , 3.18963478174836307e-14         , 2.53761656653023776e-14         , 2.06483643493520562e-14         , 1.71370096338040206e-14         , 1.44717329544829818e-14         , 1.24083553569606118e-14         , 1.07821377807878164e-14         , },
-/* x = 29.9        */  {0.162072505699125406            , 0.00271024257021775901          , 0.000135965346330265206         , 0.0000113683399924399381        , 1.33074213785387691e-6          , 2.00278915338915795e-7          , 3.68406014265944158e-8          , 8.00882466769230319e-9          , 2.00890077922503132e-9          , 5.71090465369529393e-10         , 1.81448418466444543e-10         , 6.37176148840745922e-11         , 2.4505045561973927e-11          , 1.02428548715998894e-11         , 4.62297096664752885e-12         , 2.24017960376427338e-12         , 1.15956772556885763e-12         , 6.38165839734072124e-13         , 3.71779041187587554e-13         , 2.28301116994413894e-13         , 1.47162639383066108e-13         , 9.91680683449986919e-14         , 6.95787493505042663e-14         , 5.06291972089950393e-14         , 3.80627849690297361e-14         , 2.9459176184074723e-14          , 2.33946531390137499e-14         , 1.90049981386779283e-14         , 1.57501198988711944e-14         , 1.3283262651519556e-14          , 1.13761667017535982e-14         , 9.87505754401640235e-15         , },
-/* x = 30.0        */  {0.16180215937964007             , 0.00269670265632577489          , 0.000134835132814729141         , 0.0000112362610663344912        , 1.31089712284608682e-6          , 1.96634566867309194e-7          , 3.60496690327361908e-8          , 7.81076006415567987e-9          , 1.95268845643509183e-9          , 5.53260169719447877e-10         , 1.75197494140663688e-10         , 6.13175633454041507e-11         , 2.35035063452434511e-11         , 9.79156804002329792e-12         , 4.40464601418234403e-12         , 2.12735263635999292e-12         , 1.09757259162452298e-12         , 6.0210532156534761e-13          , 3.49668500418312743e-13         , 2.14069304763152829e-13         , 1.3758544426790931e-13          , 9.24571164215979994e-14         , 6.47013296073385371e-14         , 4.69663933773638737e-14         , 3.52307376507950053e-14         , 2.72121652533425586e-14         , 2.15707366372011457e-14         , 1.74945468680543163e-14         , 1.44770641342430941e-14         , 1.21936070993909103e-14         , 1.04307764862610327e-14         , 9.04501893289202084e-15         , },
-/* x = 30.1        */  {0.161533161422407123            , 0.00268327510668309721          , 0.00013371802857084087          , 0.0000111061485509889215        , 1.29141262080151456e-6          , 1.93068330607015896e-7          , 3.52782649834867242e-8          , 7.61822857332314542e-9          , 1.89822830446134752e-9          , 5.36043131305130349e-10         , 1.69181641586767705e-10         , 5.90154452167451995e-11         , 2.25460227360644318e-11         , 9.36155975294933558e-12         , 4.19729970191978849e-12         , 2.02054850633908759e-12         , 1.03907528940948375e-12         , 5.68186267050700507e-13         , 3.28934353367337615e-13         , 2.00762455158317249e-13         , 1.28655556098232216e-13         , 8.62160552486167358e-14         , 6.01763970370386428e-14         , 4.35758570200323187e-14         , 3.26145183701117215e-14         , 2.5140201429811977e-14          , 1.98916777219205562e-14         , 1.61061070631394707e-14         , 1.33083822992006237e-14         , 1.11944604151767809e-14         , 9.56481545572486265e-15         , 8.28542306874457276e-15         , },
-/* x = 30.2        */  {0.161265500656221755            , 0.00266995862013485333          , 0.000132613838747151428         , 0.0000109779667824361491        , 1.27228091722581633e-6          , 1.89578281099645861e-7          , 3.45258446271915143e-8          , 7.43105800562504442e-9          , 1.84546015679865337e-9          , 5.1941632536159113e-10          , 1.63391284240616366e-10         , 5.68069595250983559e-11         , 2.16305207837791259e-11         , 8.95176168638203912e-12         , 4.00034688402834558e-12         , 1.91942791224865958e-12         , 9.83868403024924892e-13         , 5.36275555675820167e-13         , 3.09487263437925869e-13         , 1.88318129307951553e-13         , 1.20327703741839854e-13         , 8.04109621922591168e-14         , 5.59777754513933552e-14         , 4.04368569256575765e-14         , 3.01973267964060055e-14         , 2.32293919871011739e-14         , 1.83457823566088825e-14         , 1.48296809254517783e-14         , 1.22354091704778881e-14         , 1.02782216177856996e-14         , 8.77154533851610778e-15         , 7.5902405405049538e-15          , },
-/* x = 30.3        */  {0.160999166039026295            , 0.00265675191483427347          , 0.000131522372020354743         , 0.0000108516808586212993        , 1.25349448747567854e-6          , 1.86162546500959255e-7          , 3.3791880234118413e-8           , 7.24908207459675566e-9          , 1.79432610224381781e-9          , 5.03357663616648958e-10         , 1.57817265441259972e-10         , 5.46880074470376824e-11         , 2.07550305000972084e-11         , 8.56116236842333903e-12         , 3.81323532956195195e-12         , 1.82367164325611784e-12         , 9.31757392161118606e-13         , 5.0624869579770707e-13          , 2.91243917111285181e-13         , 1.76678250117849607e-13         , 1.12559880835317972e-13         , 7.50104313246232895e-14         , 5.20812800492233651e-14         , 3.75302743603826057e-14         , 2.79636950323781674e-14         , 2.14669650265786251e-14         , 1.69223141976839002e-14         , 1.36561002723000196e-14         , 1.12502069142019069e-14         , 9.4379342926343757e-15          , 8.04480441071885548e-15         , 6.9539619319799449e-15          , },
-/* x = 30.4        */  {0.16073414665599692             , 0.00264365372789365451          , 0.000130443440520036801         , 0.0000107272566206818747        , 1.23504599148103783e-6          , 1.82819306917817729e-7          , 3.30758604172692833e-8          , 7.0721401759618107e-9           , 1.74477039331257513e-9          , 4.87845953294262905e-10         , 1.52450828726453991e-10         , 5.26546821913312702e-11         , 1.99176803351649119e-11         , 8.18880398612714189e-12         , 3.63544377636250428e-12         , 1.73297933374868508e-12         , 8.82559758612116226e-13         , 4.77989243611961586e-13         , 2.74126603681350074e-13         , 1.65788788052917463e-13         , 1.0531310380709227e-13          , 6.99853821299048036e-14         , 4.8464562647916703e-14          , 3.48384752724289575e-14         , 2.58993801844011511e-14         , 1.98411777375507465e-14         , 1.56114151648440306e-14         , 1.25769569267132007e-14         , 1.03455034272476155e-14         , 8.66723145987735313e-15         , 7.37895778849001347e-15         , 6.37155267278486524e-15         , },
-/* x = 30.5        */  {0.160470431717664887            , 0.00263066281504275623          , 0.000129376859755270686         , 0.0000106046606347474849        , 1.21692826863074659e-6          , 1.79546792801965032e-7          , 3.23772895748321808e-8          , 6.90007717567157416e-9          , 1.69673935865936535e-9          , 4.72860858038637452e-10         , 1.47283599112816152e-10         , 5.07032594183084075e-11         , 1.91166919634224106e-11         , 7.8337793808726875e-12          , 3.46648010543010222e-12         , 1.64706829844502684e-12         , 8.36104268843762372e-13         , 4.51388262615046411e-13         , 2.58062825232791757e-13         , 1.55599470185032259e-13         , 9.85511882768841124e-14         , 6.53088830659987112e-14         , 4.5106969172321596e-14          , 3.23451927939040098e-14         , 2.39912657211010039e-14         , 1.83412322624200322e-14         , 1.44040326730671216e-14         , 1.15845390056759053e-14         , 9.51463595058766499e-15         , 7.96028519437983082e-15         , 6.76885203511611137e-15         , 5.83841183304517326e-15         , },
-/* x = 30.6        */  {0.160208010558071566            , 0.00261777795029444788          , 0.000128322448543006338         , 0.0000104838601742430714        , 1.19913433281610745e-6          , 1.76343283398517048e-7          , 3.16956873533981015e-8          , 6.73274320651064713e-9          , 1.65018131931267961e-9          , 4.58382860663265336e-10         , 1.42307565308469389e-10         , 4.88301881659173588e-11         , 1.8350375360986674e-11          , 7.49522922060379164e-12         , 3.30587962798345706e-12         , 1.56567244261120021e-12         , 7.92230228712947782e-13         , 4.26343820650530631e-13         , 2.429849346250616e-13           , 1.46063510742033938e-13         , 9.2240542405629435e-14          , 6.09559888058170697e-14         , 4.19894084139760102e-14         , 3.00354191979431093e-14         , 2.22272708919693458e-14         , 1.69571985292760747e-14         , 1.32918529620633601e-14         , 1.06717726025254235e-14         , 8.75149950039372743e-15         , 7.31176058509216163e-15         , 6.20977370597443406e-15         , 5.35033451551696579e-15         , },
-/* x = 30.7        */  {0.159946872632956549            , 0.00260499792561742801          , 0.000127280028938205464         , 0.0000103648232026801097        , 1.18165736762690859e-6          , 1.73207105247126985e-7          , 3.10305881311045015e-8          , 6.56999347289540833e-9          , 1.60504650854805664e-9          , 4.44393227634145201e-10         , 1.37515062808930152e-10         , 4.7032082254187064e-11          , 1.76171241574243486e-11         , 7.17233933803194209e-12         , 3.15320347795464115e-12         , 1.48854124234913882e-12         , 7.50786806716218792e-13         , 4.02760521843448704e-13         , 2.28829799414873533e-13         , 1.37137361529362395e-13         , 8.63499758826981059e-14         , 5.69035900772500431e-14         , 3.90942311543042697e-14         , 2.78953065390264241e-14         , 2.0596267538872512e-14          , 1.56799434683596644e-14         , 1.22672400071477718e-14         , 9.83216840279091549e-15         , 8.05049970205261656e-15         , 6.71677365748419297e-15         , 5.69741148768888746e-15         , 4.90347752934124495e-15         , },
-/* x = 30.8        */  {0.159687007517978144            , 0.00259232155061584575          , 0.000126249426165673551         , 0.0000102475183569207994        , 1.16449072169479035e-6          , 1.70136630733873422e-7          , 3.03815405199041768e-8          , 6.41168806351045367e-9          , 1.56128699522965021e-9          , 4.30873975201196457e-10         , 1.32898757829746442e-10         , 4.53057121414662888e-11         , 1.69154112458339733e-11         , 6.8643382246022313e-12          , 3.00803710314786299e-12         , 1.41543879027493737e-12         , 7.11632402405376197e-13         , 3.80549070925739119e-13         , 2.15538489805990007e-13         , 1.28780480721911453e-13         , 8.08505233409523038e-14         , 5.31302751075837614e-14         , 3.64051188193866394e-14         , 2.59120752681901626e-14         , 1.90880036891729365e-14         , 1.45010660782076158e-14         , 1.13231795395568775e-14         , 9.05977281241282067e-15         , 7.40650964822760362e-15         , 6.17085291553715345e-15         , 5.22782161793518343e-15         , 4.4943280575026207e-15          , },
-/* x = 30.9        */  {0.159428404906965571            , 0.00257974765221565575          , 0.000125230468553542427         , 0.0000101319149309007586        , 1.14762790417896528e-6          , 1.67130276691997276e-7          , 2.97481068861927859e-8          , 6.25769177144418046e-9          , 1.51885661045965765e-9          , 4.17807837096412877e-10         , 1.28451632031973794e-10         , 4.36479972073719327e-11         , 1.62437846361438549e-11         , 6.57049467067527751e-12         , 2.86998884874382316e-12         , 1.34614290222826294e-12         , 6.74634056848089476e-13         , 3.59625867639526393e-13         , 2.03055988859534015e-13         , 1.2095511863978215e-13          , 7.57152810855547284e-14         , 4.96162017579857964e-14         , 3.3906980901766466e-14          , 2.4073930173386235e-14          , 1.76930333703063333e-14         , 1.34128378524399464e-14         , 1.04532277445018708e-14         , 8.34912321350125417e-15         , 6.81483043492471412e-15         , 5.66990418974898152e-15         , 4.79739629985385539e-15         , 4.11967505545086622e-15         , },
-/* x = 31.0        */  {0.159171054610202181            , 0.00256727507435754446          , 0.000124222987468358203         , 0.0000100179828597962298        , 1.13106258038949737e-6          , 1.64186503049688795e-7          , 2.91298628890613816e-8          , 6.10787392150043348e-9          , 1.47771087738282932e-9          , 4.05178233721564737e-10         , 1.24166967999010408e-10         , 4.20559984388408688e-11         , 1.56008635374557304e-11         , 6.29011554298884774e-12         , 2.73868862725184176e-12         , 1.2804442809551405e-12          , 6.39666902234268643e-13         , 3.39912629074938153e-13         , 1.91330923331260251e-13         , 1.13626119228579509e-13         , 7.09192561101596947e-14         , 4.63429795069652857e-14         , 3.15858604470130246e-14         , 2.23699830488852636e-14         , 1.6402652132466252e-14          , 1.24081481194539771e-14         , 9.65146424205569467e-15         , 7.69520699587503311e-15         , 6.27115505949075897e-15         , 5.21017850493989511e-15         , 4.40283485010893624e-15         , 3.77658314148298945e-15         , },
-/* x = 31.1        */  {0.158914946552739077            , 0.00255490267769626895          , 0.000123226817251730836         , 9.90569270462227268e-6          , 1.11478856754352231e-6          , 1.61303811523197425e-7          , 2.8526397035471876e-8           , 5.96210820437802899e-9          , 1.43780694400079502e-9          , 3.92969242752291488e-10         , 1.20038335425603754e-10         , 4.05269114970529595e-11         , 1.49853346561291529e-11         , 6.02254369103286275e-12         , 2.61378666940357774e-12         , 1.21814573298583595e-12         , 6.06613647935307969e-13         , 3.21336037956276596e-13         , 1.8031531362515952e-13          , 1.06760736063442822e-13         , 6.64392264548152955e-14         , 4.32935605090461161e-14         , 2.94288469598749887e-14         , 2.0790181546778389e-14          , 1.52088378089039484e-14         , 1.14804538850729064e-14         , 8.91244898961349729e-15         , 7.09342404284174698e-15         , 5.77153539182535996e-15         , 4.78824270658017401e-15         , 4.04111734249954296e-15         , 3.46236876057417084e-15         , },
-/* x = 31.2        */  {0.158660070772738475            , 0.00254262933930625465          , 0.000122241795158502874         , 9.79501563724887421e-6          , 1.09879983064995995e-6          , 1.58480744353606102e-7          , 2.79373102516834675e-8          , 5.82027251742413978e-9          , 1.39910351885806638e-9          , 3.81165571089236758e-10         , 1.16059577981999098e-10         , 3.90580601442824733e-11         , 1.43959486971112528e-11         , 5.76715597450363151e-12         , 2.49495235084684836e-12         , 1.15906143518916489e-12         , 5.75364100514573688e-13         , 3.03827415035676576e-13         , 1.69964341466249468e-13         , 1.00328461786803156e-13         , 6.22536120341443863e-14         , 4.04521390167501036e-14         , 2.74239961372682866e-14         , 1.9325243708691659e-14          , 1.41041960825928622e-14         , 1.06237338027618089e-14         , 8.23118277541889233e-15         , 6.53955237728346027e-15         , 5.31235195506213049e-15         , 4.40095260711262925e-15         , 3.70948052988672681e-15         , 3.17457842257014363e-15         , },
-/* x = 31.3        */  {0.1584064174198462              , 0.00253045395239330188          , 0.000121267761296396216         , 9.6859234258223416e-6           , 1.0830904785184328e-6           , 1.55715883085677278e-7          , 2.73622154702867794e-8          , 5.68224881168099792e-9          , 1.36156080946832758e-9          , 3.6975252809047774e-10          , 1.12224800818233462e-10         , 3.76468900109463316e-11         , 1.38315170567748128e-11         , 5.52336140450012745e-12         , 2.38187308983771723e-12         , 1.10301624772574212e-12         , 5.4581471536478695e-13          , 2.87322413887789562e-13         , 1.60236134000164408e-13         , 9.43008699735421785e-14         , 5.83423551326805468e-14         , 3.78040585108236372e-14         , 2.55602558834356816e-14         , 1.7966597717128801e-14          , 1.3081910463941069e-14          , 9.83244592764807745e-15         , 7.60307100076212811e-15         , 6.02971669932987316e-15         , 4.89028627477316763e-15         , 4.04542843450044448e-15         , 3.40539584621698872e-15         , 2.91096883317721376e-15         , },
-/* x = 31.4        */  {0.15815397675359272             , 0.00251837542601225548          , 0.000120304558567096988         , 9.5783884205797663e-6           , 1.06765475988826035e-6          , 1.53007847387240908e-7          , 2.68007372322298702e-8          , 5.54792294495818749e-9          , 1.32514046335602984e-9          , 3.58716000022903966e-10         , 1.08528358675494221e-10         , 3.62909626842554201e-11         , 1.32909086962378408e-11         , 5.29059939158929549e-12         , 2.27425331144542541e-12         , 1.04984507034680055e-12         , 5.17868177812301828e-13         , 2.71760736523370988e-13         , 1.51091563123880928e-13         , 8.86514684943524212e-14         , 5.46868098270936646e-14         , 3.53357259358690757e-14         , 2.38273981067533116e-14         , 1.67063264437203301e-14         , 1.21356963171432042e-14         , 9.10148893951838717e-15         , 7.02389047415884482e-15         , 5.56035956993879753e-15         , 4.50229557656642633e-15         , 3.71903238417235684e-15         , 3.12654930776921597e-15         , 2.66948875216018922e-15         , },
-/* x = 31.5        */  {0.157902739141822107            , 0.00250639268479049568          , 0.000119352032608739799         , 9.47238354004475107e-6          , 1.05248705967354886e-6          , 1.50355293907654931e-7          , 2.62525113032464305e-8          , 5.41718454067499176e-9          , 1.28980551159437714e-9          , 3.4804242567341738e-10          , 1.04964844573266885e-10         , 3.4987950100944256e-11          , 1.27730471848031973e-11         , 5.0683380943010075e-12          , 2.17181347407953561e-12         , 9.99392239193493226e-13         , 4.91433011680663979e-13         , 2.57085868354689714e-13         , 1.42494058941233026e-13         , 8.33555635191930577e-14         , 5.12696396528899986e-14         , 3.30345324865401684e-14         , 2.22159558381709191e-14         , 1.55371164063687623e-14         , 1.1259758602902738e-14          , 8.42616654644087025e-15         , 6.48975896431785789e-15         , 5.12821501575217671e-15         , 4.14558963095095847e-15         , 3.41934809282135392e-15         , 2.87082314857143724e-15         , 2.44826242772060851e-15         , },
-/* x = 31.6        */  {0.157652695059148381            , 0.00249450466865711216          , 0.000118410031739753857         , 9.3678822575929837e-6           , 1.03758189532054068e-6          , 1.47756915173926443e-7          , 2.57171843041214546e-8          , 5.28992685222886025e-9          , 1.25552031472655004e-9          , 3.3771877306386724e-10          , 1.01529079042698361e-10         , 3.37356292275589307e-11         , 1.22769079037802888e-11         , 4.85607286201845036e-12         , 2.0742891544233703e-12          , 9.51510961445199089e-13         , 4.66423213447152141e-13         , 2.43244831152133928e-13         , 1.34409436319359669e-13         , 7.8390133368277711e-14          , 4.80747228864188975e-14         , 3.08887804335762403e-14         , 2.07171652484592076e-14         , 1.44522107791061382e-14         , 1.04487530328612671e-14         , 7.80215480488996327e-15         , 5.99710728019353981e-15         , 4.73028434982755062e-15         , 3.81760956169871635e-15         , 3.14416186828592438e-15         , 2.63627903936254949e-15         , 2.24557446930315045e-15         , },
-/* x = 31.7        */  {0.157403835085438639            , 0.00248271033257762689          , 0.000117478406904034477         , 9.26485858837661748e-6          , 1.02293391327352503e-6          , 1.45211438523137064e-7          , 2.51944133542535063e-8          , 5.16604663265710055e-9          , 1.22225051096247794e-9          , 3.27732517216509746e-10         , 9.82160998782062795e-11         , 3.25318770127275209e-11         , 1.18015154015351094e-11         , 4.6533247666083705e-12          , 1.98143018711386369e-12         , 9.0606278534534703e-13          , 4.42757910257077485e-13         , 2.30187952729913433e-13         , 1.26805733598421527e-13         , 7.37337114784629515e-14         , 4.5087064862034854e-14          , 2.88876155195013194e-14         , 1.93229121755758892e-14         , 1.34453661276635591e-14         , 9.69775035635870532e-15         , 7.2254721144247823e-15          , 5.5426536660665384e-15          , 4.36381402041768411e-15         , 3.51600844977803255e-15         , 2.89144552413726329e-15         , 2.42114275263490807e-15         , 2.05985603318113611e-15         , },
-/* x = 31.8        */  {0.157156149904322457            , 0.00247100864629413505          , 0.000116557011617404672         , 9.16328707659678162e-6          , 1.00853788554574567e-6          , 1.42717625069868936e-7          , 2.46838657279954648e-8          , 5.0454440093694074e-9           , 1.18996296654865377e-9          , 3.18071618919502871e-10         , 9.50211523808777214e-11         , 3.13746655967248536e-11         , 1.13459408911625813e-11         , 4.45963921748951372e-12         , 1.89299985574662594e-12         , 8.62917103300639805e-13         , 4.20361040182207128e-13         , 2.1786865218995872e-13          , 1.19653062577312808e-13         , 6.93662778086338562e-14         , 4.22927167893908768e-14         , 2.70209644910937944e-14         , 1.80256828048045995e-14         , 1.25108125705148797e-14         , 9.00220352331350188e-15         , 6.69245166526573843e-15         , 5.12338031756434012e-15         , 4.0262753160290786e-15          , 3.23863357940469646e-15         , 2.65934068073281557e-15         , 2.22379014829835677e-15         , 1.88967220620659018e-15         , },
-/* x = 31.9        */  {0.156909630301727               , 0.00245939859407073675          , 0.00011564570191533251          , 9.06314278311389475e-6          , 9.94388706391868272e-7          , 1.40274268707378479e-7          , 2.41852185232773637e-8          , 4.92802236373884423e-9          , 1.15862572821340434e-9          , 3.0872450444452049e-10          , 9.19396800686273158e-11         , 3.02620577644781674e-11         , 1.09092998826885783e-11         , 4.27458465516846243e-12         , 1.80877413200755378e-12         , 8.2195068590521168e-13          , 3.99161053222492284e-13         , 2.06243239637550015e-13         , 1.12923468963130033e-13         , 6.52691580590792608e-14         , 3.96787005773908585e-14         , 2.52794773700073793e-14         , 1.68185181730997322e-14         , 1.16432170897011528e-14         , 8.35791748823510632e-15         , 6.1997161356891193e-15          , 4.73651184096537126e-15         , 3.7153457696647379e-15          , 2.9835101859718838e-15          , 2.44614440648656706e-15         , 2.04273436545694448e-15         , 1.73371048317114757e-15         , },
-/* x = 32.0        */  {0.156664267164437336            , 0.0024478791744441355           , 0.000114744336301870974         , 8.96440127338579227e-6          , 9.80481389078693443e-7          , 1.37880195141313679e-7          , 2.36981583420357018e-8          , 4.81368821534841523e-9          , 1.12820797759469811e-9          , 2.99680046171004982e-10         , 8.89673158294303995e-11         , 2.91922026289451452e-11         , 1.0490749942190457e-11          , 4.09775131858144266e-12         , 1.72854095993984152e-12         , 7.83047244886036094e-13         , 3.79090631654969137e-13         , 1.95270729360388865e-13         , 1.06590802532258064e-13         , 6.14249301272570967e-14         , 3.72329392095926968e-14         , 2.36544740944407249e-14         , 1.56949721954977655e-14         , 1.08376497382547699e-14         , 7.76102143982625015e-15         , 5.74415445316237627e-15         , 4.3794954931591721e-15          , 3.4288921185678429e-15          , 2.74882657768964349e-15         , 2.25029608405024224e-15         , 1.87661411577922057e-15         , 1.59077024239747311e-15         , },
-/* x = 32.1        */  {0.156420051478681435            , 0.00243644939997928312          , 0.000113852775699788012         , 8.86703860572400385e-6          , 9.66811062750919254e-7          , 1.35534260954817172e-7          , 2.32223809819934273e-8          , 4.70235111069943455e-9          , 1.09867998756200407e-9          , 2.90927544073881809e-10         , 8.60998734952164696e-11         , 2.81633315325340941e-11         , 1.00894885706764352e-11         , 3.92875008186999779e-12         , 1.65209958254879935e-12         , 7.46097023100594373e-13         , 3.60086428430862979e-13         , 1.84912665535225171e-13         , 1.00630596306477549e-13         , 5.78173372660848442e-14         , 3.49441922510948068e-14         , 2.21378951937362112e-14         , 1.46490729357263981e-14         , 1.00895525116926104e-14         , 7.20794325845062874e-15         , 5.32290044870807608e-15         , 4.04998305338145725e-15         , 3.16495468804041916e-15         , 2.53292051378817336e-15         , 2.07036539608884046e-15         , 1.72418298305637481e-15         , 1.45975313254542896e-15         , },
-/* x = 32.2        */  {0.156176974328739355            , 0.00242510829702995321          , 0.000112970883401855452         , 8.77103131985883101e-6          , 9.53372969388870734e-7          , 1.33235352703902093e-7          , 2.27575911393537458e-8          , 4.59392351619653569e-9          , 1.07001308034792295e-9          , 2.82456708033740576e-10         , 8.33333398152061154e-11         , 2.71737541549306104e-11         , 9.70475119598768516e-12         , 3.76721135648905303e-12         , 1.57925990812744282e-12         , 7.10996409843147946e-13         , 3.42088822412119134e-13         , 1.75132959593211449e-13         , 9.5019954098839854e-14          , 5.44312074512416225e-14         , 3.28019960993992107e-14         , 2.07222561844449306e-14         , 1.36752868654350607e-14         , 9.39471066999167116e-15         , 6.69538602006978938e-15         , 4.93331324823455857e-15         , 3.74581419041690029e-15         , 2.92173307911462123e-15         , 2.33426673220792018e-15         , 1.9050413344524432e-15          , 1.58429964185683293e-15         , 1.33965429124460715e-15         , },
-/* x = 32.3        */  {0.155935026895576132            , 0.00241385490550412926          , 0.000112098525023266346         , 8.67635642580417777e-6          , 9.40162460855222907e-7          , 1.30982386042030365e-7          , 2.23035021219890004e-8          , 4.48832071523239035e-9          , 1.04217958740930754e-9          , 2.74257640930551697e-10         , 8.06638668086051662e-11         , 2.62218548163486067e-11         , 9.33580927138435689e-12         , 3.61278405479907776e-12         , 1.50984191385428175e-12         , 6.77647579832595543e-13         , 3.25041689322321411e-13         , 1.65897738437277212e-13         , 8.97374458315201822e-14         , 5.12523785012035307e-14         , 3.07966086216476632e-14         , 1.94006054009141723e-14         , 1.27684858769475349e-14         , 8.74922631384118283e-15         , 6.22030638021729002e-15         , 4.57295925761839866e-15         , 3.46500120046501043e-15         , 2.69757305009515317e-15         , 2.15146552889682301e-15         , 1.75312214487028257e-15         , 1.45591891577164108e-15         , 1.22955432312030105e-15         , },
-/* x = 32.4        */  {0.15569420045549789             , 0.0024026882786340957           , 0.000111235568455151205         , 8.5829913930133793e-6           , 9.27174996027848936e-7          , 1.28774304872864142e-7          , 2.18598355727231717e-8          , 4.38546070920304318e-9          , 1.01515281094138293e-9          , 2.6632082248394253e-10          , 7.80877644776369475e-11         , 2.53060889658386115e-11         , 8.98196847484960174e-12         , 3.46513461153095944e-12         , 1.44367508437194496e-12         , 6.45958154363464999e-13         , 3.08892187364715173e-13         , 1.5717520276237236e-13          , 8.47630100717463093e-14         , 4.82676285280978654e-14         , 2.89189578481781634e-14         , 1.81664849960097675e-14         , 1.19239168332492012e-14         , 8.14949403491268963e-15         , 5.77989468529359024e-15         , 4.2395956102702802e-15          , 3.20571500138753896e-15         , 2.49095449135289815e-15         , 1.98323229923669187e-15         , 1.61350612689227888e-15         , 1.3380836026662452e-15          , 1.12861197112298135e-15         , },
-/* x = 32.5        */  {0.155454486378830719            , 0.00239160748275112366          , 0.000110381883819164458         , 8.49091413981755517e-6          , 9.1440613801602587e-7           , 1.26610080530200433e-7          , 2.14263212023230781e-8          , 4.28526412229223585e-9          , 9.88906986971982347e-10         , 2.58637093804907918e-10         , 7.56014938629010038e-11         , 2.44249798448651674e-11         , 8.64256700349559457e-12         , 3.32394605973391788e-12         , 1.38059788320200893e-12         , 6.15840883202662415e-13         , 2.93590556532266658e-13         , 1.4893549478276304e-13          , 8.00778632724846817e-14         , 4.54646113291804789e-14         , 2.71605944177359474e-14         , 1.70138948683380269e-14         , 1.1137173456205124e-14          , 7.59217847452351518e-15         , 5.37155667103697106e-15         , 3.93115495685553057e-15         , 2.96627227868353791e-15         , 2.3004804013080833e-15          , 1.82838795979603825e-15         , 1.48518321574110901e-15         , 1.22991700066958979e-15         , 1.03605742085604434e-15         , },
-/* x = 32.6        */  {0.155215876128621851            , 0.00238061159706464571          , 0.000109537343423113296         , 8.40010302313828585e-6          , 9.01851551457327601e-7          , 1.2448871098413661e-7           , 2.1002696531829161e-8           , 4.18765410987020979e-9          , 9.63417249966437609e-10         , 2.51197642625583199e-10         , 7.32016604239979451e-11         , 2.35771153169101547e-11         , 8.31697395778403057e-12         , 3.18891715802432516e-12         , 1.32045725498837447e-12         , 5.87213345908713122e-13         , 2.79089930701769062e-13         , 1.41150574719994096e-13         , 7.56644152421016776e-14         , 4.28317963580214431e-14         , 2.55136474930685936e-14         , 1.59372592914271221e-14         , 1.04041703698865379e-14         , 7.07419363849892983e-15         , 4.99289661955039452e-15         , 3.6457314868589778e-15          , 2.7451236873472989e-15          , 2.12486677936568808e-15         , 1.68585017561884762e-15         , 1.36722727907224441e-15         , 1.13061607439414786e-15         , 9.51186182872377923e-16         , },
-/* x = 32.7        */  {0.154978361259362701            , 0.0023696997134458167           , 0.000108701821717601854         , 8.31053682846667326e-6          , 8.89506999892628048e-7          , 1.22409220072550672e-7          , 2.05887066438718485e-8          , 4.09255627035925894e-9          , 9.38659598876917241e-10         , 2.4399398917536845e-10          , 7.08850077292584723e-11         , 2.27611448543720406e-11         , 8.00458781058196442e-12         , 3.05976156614759402e-12         , 1.26310815668942778e-12         , 5.59997671337873762e-13         , 2.65346161666324541e-13         , 1.33794105450951808e-13         , 7.15061904019396274e-14         , 4.03584129415184187e-14         , 2.39707838871981146e-14         , 1.49313960379000163e-14         , 9.72111913047766156e-15         , 6.59268382836442105e-15         , 4.64170185682975773e-15         , 3.38156808085927362e-15         , 2.54084302182509665e-15         , 1.96293335871970166e-15         , 1.55462532466547336e-15         , 1.258789067423094e-15           , 1.03944520613915768e-15         , 8.73353502722125152e-16         , },
-/* x = 32.8        */  {0.154741933415733343            , 0.00235887093621536055          , 0.000107875195253664501         , 8.22219476010109954e-6          , 8.77368343216727445e-7          , 1.20370656757014796e-7          , 2.01841039426339385e-8          , 3.9998985604247685e-9           , 9.14610864573096645e-10         , 2.37017972673266088e-10         , 6.86484114392632331e-11         , 2.1975776674514334e-11          , 7.70483495636344663e-12         , 2.93620706604723448e-12         , 1.20841311595865469e-12         , 5.34120274183131135e-13         , 2.52317654318437221e-13         , 1.26841344757939707e-13         , 6.75877544228705224e-14         , 3.80343984338205158e-14         , 2.25251701605398876e-14         , 1.3991487807843779e-14          , 9.08450608764785069e-15         , 6.14500606031356388e-15         , 4.31592848242612822e-15         , 3.13704450078196329e-15         , 2.3521172736630585e-15          , 1.81359510848412514e-15         , 1.43380113687566147e-15         , 1.15908976241355507e-15         , 9.55730481628296625e-16         , 8.01969252922905539e-16         , },
-/* x = 32.9        */  {0.15450658433136798             , 0.00234812438193560534          , 0.000107057342641362723         , 8.13505643163624236e-6          , 8.6543153520220108e-7           , 1.18372094402293985e-7          , 1.97886479221332578e-8          , 3.90961121335663941e-9          , 8.91248678593983478e-10         , 2.30261738407784817e-10         , 6.64888735696418438e-11         , 2.12197750166717405e-11         , 7.41716833613938964e-12         , 2.81799482580557063e-12         , 1.15624181506492725e-12         , 5.0951160746815648e-13          , 2.39965212249766825e-13         , 1.20269044662068562e-13         , 6.38946458616140704e-14         , 3.58503500212997989e-14         , 2.11704374673631964e-14         , 1.3113055785466523e-14          , 8.49107193460283667e-15         , 5.72871385378318866e-15         , 4.01368823175708253e-15         , 2.91066653309883294e-15         , 2.17773750318915871e-15         , 1.67585444059014552e-15         , 1.32253995067270771e-15         , 1.06741507158283439e-15         , 8.78854464212665537e-16         , 7.36493265027032845e-16         , },
-/* x = 33.0        */  {0.154272305827641016            , 0.00233745917920661146          , 0.000106248144509320841         , 8.0491018566961412e-6           , 8.53692621094153064e-7          , 1.16412630078613507e-7          , 1.94021049425130671e-8          , 3.82162666051187465e-9          , 8.68551443163514767e-10         , 2.23717725377175848e-10         , 6.44035170193969091e-11         , 2.04919575533513634e-11         , 7.14106613395357963e-12         , 2.70487870398021799e-12         , 1.10647069880789064e-12         , 4.86105929989147352e-13         , 2.28251893083613099e-13         , 1.14055357357789831e-13         , 6.04133124451142529e-14         , 3.37974799140018782e-14         , 1.99006489469843917e-14         , 1.22919351618372222e-14         , 7.93779281536207811e-15         , 5.34154228100288057e-15         , 3.73323637972775742e-15         , 2.70105600699328358e-15         , 2.01659045775081917e-15         , 1.54879406235893967e-15         , 1.22007253461573159e-15         , 9.83109823151413683e-16         , 8.08251415467121363e-16         , 6.76431063611984936e-16         , },
-/* x = 33.1        */  {0.154039089812473303            , 0.00232687446846630042          , 0.000105447483465176521         , 7.96431143990433645e-6          , 8.42147735273637774e-7          , 1.14491383885909448e-7          , 1.90242480140403235e-8          , 3.73587945569470839e-9          , 8.46498302415198117e-10         , 2.17378654464106609e-10         , 6.23895803517147299e-11         , 1.97911929282703757e-11         , 6.87603054102278219e-12         , 2.59662459200995613e-12         , 1.05898260498124406e-12         , 4.63841087763528986e-13         , 2.17142872902703017e-13         , 1.08179747300283092e-13         , 5.71310516767288422e-14         , 3.18675736786783731e-14         , 1.87102694706646176e-14         , 1.15242524741207018e-14         , 7.42186286822856971e-15         , 4.98139417764088783e-15         , 3.47296060179249041e-15         , 2.50694161597240433e-15         , 1.86765087468479997e-15         , 1.43157042066216821e-15         , 1.125692426374024e-15           , 9.05573018019040858e-16         , 7.43402923756262049e-16         , 6.21329967351557735e-16         , },
-/* x = 33.2        */  {0.153806928279158193            , 0.00231636940179449366          , 0.00010465524405692269          , 7.88066596808432343e-6          , 8.30793098987588715e-7          , 1.126074982993061e-7            , 1.86548565885240022e-8          , 3.65230620235600401e-9          , 8.25069114773594849e-10         , 2.11237517120146843e-10         , 6.0444412814901023e-11          , 1.91163984147524006e-11         , 6.6215865838244447e-12          , 2.49300979250375049e-12         , 1.01366641602769847e-12         , 4.42658308606041723e-13         , 2.06605319178090487e-13         , 1.0262290902883887e-13          , 5.40359554615553521e-14         , 3.00529514866786589e-14         , 1.7594137569553955e-14          , 1.08064046233377572e-14         , 6.94067809399756744e-15         , 4.64632742270791347e-15         , 3.23137071543956104e-15         , 2.32715047732610558e-15         , 1.7299744123726853e-15          , 1.32340768815763917e-15         , 1.03875074527989569e-15         , 8.34253299982966474e-16         , 6.83833905676354542e-16         , 5.70775525364044378e-16         , },
-/* x = 33.3        */  {0.15357581330520698             , 0.00230594314272077371          , 0.000103871312735118164         , 7.79814660168377528e-6          , 8.19625018143168757e-7          , 1.10760137535092058e-7          , 1.82937163578772507e-8          , 3.57084548349874646e-9          , 8.04244426442844633e-10         , 2.05287564536645862e-10         , 5.85654695917196246e-11         , 1.84665376882637799e-11         , 6.37728101264748594e-12         , 2.39382243135799961e-12         , 9.70416730614438669e-13         , 4.22502009010125333e-13         , 1.96608271645187855e-13         , 9.73666903385409159e-14         , 5.11168584700384062e-14         , 2.83464320667724748e-14         , 1.65474393822785632e-14         , 1.01350394433790824e-14         , 6.49182144626015519e-15         , 4.33454320326325491e-15         , 3.00708923136634796e-15         , 2.16060036925791057e-15         , 1.60269115747416265e-15         , 1.22359224627261883e-15         , 9.5865143844774518e-16          , 7.68644808515724757e-16         , 6.29108948319122435e-16         , 5.24388259806190121e-16         , },
-/* x = 33.4        */  {0.153345737051213378            , 0.00229559486603608166          , 0.000103095577815944941         , 7.716734866416194e-6            , 8.08639881164527144e-7          , 1.08948486936494005e-7          , 1.79406190595582227e-8          , 3.49143779418131916e-9          , 7.84005445954715751e-10         , 1.99522297279721445e-10         , 5.67503072660169489e-11         , 1.78406187072092914e-11         , 6.14268124732093476e-12         , 2.29886090177018127e-12         , 9.29133553937419666e-13         , 4.03319612566016614e-13         , 1.87122530610348121e-13         , 9.23940204396141841e-14         , 4.83632899792101187e-14         , 2.67412991684957168e-14         , 1.55656844729950965e-14         , 9.50703770385536592e-15         , 6.07304904925928478e-15         , 4.04437518624861233e-15         , 2.7988426493776088e-15          , 2.00629259048266946e-15         , 1.48499966076879687e-15         , 1.13146762343541501e-15         , 8.84846923857594523e-16         , 7.08283381506323e-16            , 5.78828963078032119e-16         , 4.81820688211069578e-16         , },
-/* x = 33.5        */  {0.15311669175973665             , 0.00228532375760796753          , 0.000102327929445090699         , 7.63641264511384684e-6          , 7.97834156910017471e-7          , 1.07171752378573134e-7          , 1.75953622886350326e-8          , 3.41402547651489756e-9          , 7.64334019730838452e-10         , 1.9393545536816368e-10          , 5.49965794960869076e-11         , 1.72376916964259394e-11         , 5.91737437702252973e-12         , 2.20793333833247952e-12         , 8.89722005637161662e-13         , 3.85061379196874218e-13         , 1.78120552206208733e-13         , 8.76888427689219789e-14         , 4.5765428949629159e-14          , 2.52312703559576608e-14         , 1.46446833820184053e-14         , 8.91949643844237325e-15         , 5.68227745620755879e-15         , 3.77427952600335126e-15         , 2.60545343932898355e-15         , 1.86330539164185944e-15         , 1.3761614580092421e-15          , 1.04642985055782418e-15         , 8.16834096918876396e-16         , 6.52743078168064826e-16         , 5.32628124250749456e-16         , 4.42754601375822472e-16         , },
-/* x = 33.6        */  {0.152888669754203041            , 0.00227512901419941196          , 0.0001015682595624357           , 7.55716216978603644e-6          , 7.87204392647997085e-7          , 1.0542915969159409e-7           , 1.72577493162304176e-8          , 3.33855265705572174e-9          , 7.45212608615846702e-10         , 1.8852100877408432e-10          , 5.33020328847719405e-11         , 1.66568472281143316e-11         , 5.70096621124556482e-12         , 2.1208571194971942e-12          , 8.5209204427822282e-13          , 3.67680244540785592e-13         , 1.69576350146379217e-13         , 8.32360521414113715e-14         , 4.33140621134185717e-14         , 2.38104679653097792e-14         , 1.37805267815388602e-14         , 8.36971349874141784e-15         , 5.31757186783052053e-15         , 3.52282564173665828e-15         , 2.42583265229096655e-15         , 1.73078793206231211e-15         , 1.27549603582601086e-15         , 9.67923198974830185e-16         , 7.54150669880143941e-16         , 6.01632994873485377e-16         , 4.90171068003953123e-16         , 4.06898574710880256e-16         , },
-/* x = 33.7        */  {0.15266166343782514             , 0.00226500984329113986          , 0.000100816461867523828         , 7.4789660138769378e-6           , 7.76747212089392139e-7          , 1.0371995410224028e-7           , 1.69275889141114048e-8          , 3.26496518649723845e-9          , 7.26624265340121439e-10         , 1.83273148327116807e-10         , 5.16645030368075316e-11         , 1.60972143952309565e-11         , 5.49308037916795703e-12         , 2.03745839680722893e-12         , 8.16158207409547261e-13         , 3.5113166884992841e-13          , 1.61465403560179302e-13         , 7.90214359509528368e-14         , 4.10005448648613283e-14         , 2.24733920713378841e-14         , 1.29695661185531412e-14         , 7.85517324137957021e-15         , 4.97713523720512996e-15         , 3.28868770448865117e-15         , 2.25897311156188198e-15         , 1.60795471921122341e-15         , 1.18237620605454947e-15         , 8.95436268979159685e-16         , 6.96371816055757022e-16         , 5.54594349013091853e-16         , 4.51150329377991987e-16         , 3.73985692883705517e-16         , },
-/* x = 33.8        */  {0.152435665292538855            , 0.00225496546290734854          , 0.00010007243178579811          , 7.40180708471741388e-6          , 7.66459313475274033e-7          , 1.02043399692072394e-7          , 1.66046951851985776e-8          , 3.1932105815711394e-9           , 7.08552612872701264e-10         , 1.78186277003896982e-10         , 5.00819107944017327e-11         , 1.55579590726324093e-11         , 5.29335747482337122e-12         , 1.95757164938015919e-12         , 7.81839366283709744e-13         , 3.35373494818669574e-13         , 1.53764570516172151e-13         , 7.50316191501207336e-14         , 3.88167647598921049e-14         , 2.12148953199776405e-14         , 1.22083956360001271e-14         , 7.37353326317286726e-15         , 4.65929819276499862e-15         , 3.07063677794238983e-15         , 2.10394313724516179e-15         , 1.49408049170848435e-15         , 1.09622385490552244e-15         , 8.28498399770315148e-16         , 6.43107093222602779e-16         , 5.11297808109008478e-16         , 4.15283996936569748e-16         , 3.43771469343363452e-16         , },
-/* x = 33.9        */  {0.152210667877957634            , 0.00224499510144477493          , 0.0000993360664355815727        , 7.32566861616539383e-6          , 7.5633746771775214e-7           , 1.00398778872649078e-7          , 1.62888873997784381e-8          , 3.12323796907017612e-9          , 6.90981823626709248e-10         , 1.73255001585432189e-10         , 4.8552258642499363e-11          , 1.50382822615152189e-11         , 5.10145424562087387e-12         , 1.88103926222370298e-12         , 7.49058494369988135e-13         , 3.20365813790189838e-13         , 1.4645200686933776e-13          , 7.12540127571292211e-14         , 3.67551074446126528e-14         , 2.00301594940395763e-14         , 1.14938356712796253e-14         , 6.92261210571799053e-15         , 4.36250971668272438e-15         , 2.86753356188698698e-15         , 1.9598807618569839e-15          , 1.38849550997355946e-15         , 1.01650603619272349e-15         , 7.6667637409188002e-16          , 5.93997622717824799e-16         , 4.71441043364765985e-16         , 3.82313566426789283e-16         , 3.1603194391223107e-16          , },
-/* x = 34.0        */  {0.151986663830343628            , 0.00223509799750502814          , 0.0000986072645957848606        , 7.25053416142956463e-6          , 7.46378516592544764e-7          , 9.87853918767499183e-8          , 1.59799898372108922e-8          , 3.05499803190931128e-9          , 6.7389659948134173e-10          , 1.68474124665799675e-10         , 4.70736272756141511e-11         , 1.45374185129333181e-11         , 4.91704282189757021e-12         , 1.80771112704423108e-12         , 7.17742448849451428e-13         , 3.06070839826508079e-13         , 1.39507090091032477e-13         , 6.76767656554783784e-14         , 3.48084248457382534e-14         , 1.89146736891290201e-14         , 1.08229171388895554e-14         , 6.50037785680779058e-15         , 4.08532852075283797e-15         , 2.67832169121081905e-15         , 1.82598839787303651e-15         , 1.29058122153289376e-15         , 9.42731380391699544e-16         , 7.09571393076736219e-16         , 5.48713502759977633e-16         , 4.34746488614363414e-16         , 3.52001976422138654e-16         , 2.9056194309130066e-16          , },
-/* x = 34.1        */  {0.151763645861595444            , 0.00222527339973011574          , 0.0000978859266743225279        , 7.17638758607128784e-6          , 7.36579370981645255e-7          , 9.7202556265161273e-8           , 1.56778316329320458e-8          , 2.98844295714528028e-9          , 6.57282152586081002e-10         , 1.63838636996406116e-10         , 4.56441723185225256e-11         , 1.4054634426400192e-11          , 4.7398099853185406e-12          , 1.73744426428861537e-12         , 6.87821764330097779e-13         , 2.92452791159719781e-13         , 1.32910347763509775e-13         , 6.42887194679747221e-14         , 3.29700054677297469e-14         , 1.78642139857192683e-14         , 1.01928671108959667e-14         , 6.10493758162445891e-15         , 3.82641506642089731e-15         , 2.50202154705269564e-15         , 1.70152792128343342e-15         , 1.19976627071762025e-15         , 8.74446793645925172e-16         , 6.56816298875183254e-16         , 5.06951436337075408e-16         , 4.00959287261975983e-16         , 3.24131810388710364e-16         , 2.67173489058134839e-16         , },
-/* x = 34.2        */  {0.151541606758252209            , 0.00221552056664109365          , 0.0000971719546772204343        , 7.10321306117980909e-6          , 7.2693700916455313e-7           , 9.5649606448505097e-8           , 1.53822466305603293e-8          , 2.92352638587799328e-9          , 6.41124186914332724e-10         , 1.59343710150791162e-10         , 4.42621211935013334e-11         , 1.35892272197951336e-11         , 4.56945647406063172e-12         , 1.67010246523355161e-12         , 6.59230458066740209e-13         , 2.79477778573020511e-13         , 1.26643390441853403e-13         , 6.10793663017587602e-14         , 3.12335466523493204e-14         , 1.68748245116383298e-14         , 9.60109541539520128e-15         , 5.73452752178859879e-15         , 3.58452417976676393e-15         , 2.33772454018481406e-15         , 1.58581613812606968e-15         , 1.11552282496073566e-15         , 8.112344229844214e-16           , 6.08073024522094141e-16         , 4.68432555670352087e-16         , 3.69845411291622426e-16         , 2.98503650955301581e-16         , 2.45694344552782185e-16         , },
-/* x = 34.3        */  {0.151320539380513597            , 0.00220583876647977153          , 0.0000964652521783971558        , 7.03099505671597791e-6          , 7.17448475156591119e-7          , 9.41258932236097008e-8          , 1.50930732389214594e-8          , 2.86020336496041367e-9          , 6.25408880535154669e-10         , 1.5498468949567106e-10          , 4.29257701271597008e-11         , 1.31405233669935722e-11         , 4.40569632283174188e-12         , 1.60555595300581459e-12         , 6.31905846014028098e-13         , 2.67113700288806829e-13         , 1.20688848605806784e-13         , 5.80388091748827626e-14         , 2.95931286665631245e-14         , 1.59427997969120883e-14         , 9.04518217908024923e-15         , 5.38750400506740336e-15         , 3.35849821608209908e-15         , 2.18458782986921444e-15         , 1.47822060363245963e-15         , 1.03736319217673723e-15         , 7.52708865981738351e-16         , 5.63030252221075579e-16         , 4.3290042678560946e-16          , 3.41189937785909494e-16         , 2.74934573392161986e-16         , 2.25966681957077744e-16         , },
-/* x = 34.4        */  {0.151100436661275548            , 0.00219622727705340696          , 0.0000957657242901027908        , 6.95971833501984138e-6          , 7.08110877092878234e-7          , 9.26307833239394902e-8          , 1.48101542938149304e-8          , 2.79843030044661216e-9          , 6.10122868573139589e-10         , 1.50757087454595847e-10         , 4.16334812902636971e-11         , 1.27078772998307981e-11         , 4.24825623588560499e-12         , 1.54368106148199699e-12         , 6.05788369081906781e-13         , 2.55330142967973322e-13         , 1.1503031344227385e-13          , 5.51577249479114089e-14         , 2.80431904941594069e-14         , 1.50646683300169469e-14         , 8.52286624552222115e-15         , 5.06233501290231039e-15         , 3.14726073221027957e-15         , 2.04182944434201262e-15         , 1.37815576606602443e-15         , 9.64836705792195994e-16         , 6.98514604893457605e-16         , 5.21401262799725881e-16         , 4.00119219117046671e-16         , 3.14795469635749241e-16         , 2.53256766421178673e-16         , 2.0784586588604341e-16          , },
-/* x = 34.5        */  {0.150881291605181365            , 0.00218668538558232356          , 0.0000950732776339990019        , 6.88936794447761553e-6          , 6.98921385656576387e-7          , 9.11636589836181082e-8          , 1.45333369243516113e-8          , 2.73816491271062225e-9          , 5.95253226827845247e-10         , 1.46656577051237066e-10         , 4.03836800642825011e-11         , 1.22906701711872587e-11         , 4.0968749912941345e-12          , 1.48435993107741583e-12         , 5.80821429001138511e-13         , 2.44098288449584733e-13         , 1.09652281216310964e-13         , 5.24273295960375592e-14         , 2.6578507215212237e-14          , 1.42371772311765586e-14         , 8.03203440585819659e-15         , 4.75759235693501215e-15         , 2.94981062806572899e-15         , 1.90872377175779105e-15         , 1.28507940957892692e-15         , 8.97526855908655032e-16         , 6.483236469517563e-16           , 4.82921960532940028e-16         , 3.69872026342630139e-16         , 2.90480688258836174e-16         , 2.33316269501465396e-16         , 1.91199339535060394e-16         , },
-/* x = 34.6        */  {0.150663097287687907            , 0.00217721238855038969          , 0.0000943878203128645732        , 6.81992921334367418e-6          , 6.89877232550073791e-7          , 8.97239175145961161e-8          , 1.42624724236986183e-8          , 2.67936619317151947e-9          , 5.80787456025432105e-10         , 1.42678985719934326e-10         , 3.91748524286974243e-11         , 1.18883086761525358e-11         , 3.95130287483551871e-12         , 1.4274802204912939e-12          , 5.56951233242406146e-13         , 2.33390825883516594e-13         , 1.04540101004314805e-13         , 4.98393456683809053e-14         , 2.51941688656488695e-14         , 1.34572779644303215e-14         , 7.57071138327099164e-15         , 4.47194441941735171e-15         , 2.76521672174156365e-15         , 1.7845973928893128e-15          , 1.19848937247641304e-15         , 8.35048646834021969e-16         , 6.01833354018861295e-16         , 4.47349058852163725e-16         , 3.41959325815593729e-16         , 2.68079027182932424e-16         , 2.14971816667096737e-16         , 1.75905605870852342e-16         , },
-/* x = 34.7        */  {0.150445846854146595            , 0.00216780759155829602          , 0.0000937092618829111955        , 6.75138774371332674e-6          , 6.8097570900781247e-7           , 8.83109708965304105e-8          , 1.39974161240739593e-8          , 2.62199436256282035e-9          , 5.66713466676377032e-10         , 1.38820289371709948e-10         , 3.80055424634113814e-11         , 1.15002239283847242e-11         , 3.8113011419468229e-12          , 1.37293483352927125e-12         , 5.34126648466155269e-13         , 2.23181868930538255e-13         , 9.96799255779184141e-14         , 4.73859717915296789e-14         , 2.38855606767203287e-14         , 1.27221130158430002e-14         , 7.13705051698456858e-15         , 4.20414941581007728e-15         , 2.59261272537010626e-15         , 1.66882522914274975e-15         , 1.11792051917235288e-15         , 7.77046162828491964e-16         , 5.58764446183071202e-16         , 4.1445841366793696e-16          , 3.16197565022890261e-16         , 2.47437456299089282e-16         , 1.98093777845797102e-16         , 1.61853295525153812e-16         , },
-/* x = 34.8        */  {0.150229533518898948            , 0.00215847030917957153          , 0.0000930375133266946044        , 6.68372940564228324e-6          , 6.72214164349509684e-7          , 8.69242453789580237e-8          , 1.37380272758395052e-8          , 2.56601083068685154e-9          , 5.53019564514282658e-10         , 1.35076606704513004e-10         , 3.68743499608771111e-11         , 1.11258703889327471e-11         , 3.67664150627518744e-12         , 1.32062166017499353e-12         , 5.12299062011848976e-13         , 2.13446877724762698e-13         , 9.5058665240912458e-14          , 4.50598540840513588e-14         , 2.26483446011732904e-14         , 1.20290034704493563e-14         , 6.72932509550845334e-15         , 3.9530491410303167e-15          , 2.43119259143918209e-15         , 1.56082698153199209e-15         , 1.04294194586015924e-15         , 7.23190325388092791e-16         , 5.18859165153106145e-16         , 3.84043492140489669e-16         , 2.92417864476873378e-16         , 2.28415367457546521e-16         , 1.82563189365785921e-16         , 1.48940313953683857e-16         , },
-/* x = 34.9        */  {0.150014150564386391            , 0.00214919986481927929          , 0.0000923724870266066053        , 6.61694033140882813e-6          , 6.63590004572564094e-7          , 8.55631810953618005e-8          , 1.34841689305466567e-8          , 2.51137815759718294e-9          , 5.39694436491899374e-10         , 1.31444193746978818e-10         , 3.57799281428285058e-11         , 1.07647248449316731e-11         , 3.54710565344212956e-12         , 1.27044333113016333e-12         , 4.91422250964850592e-13         , 2.04162585312504708e-13         , 9.06639444343811942e-14         , 4.28540593576896967e-14         , 2.1478442039416917e-14          , 1.13754374253665809e-14         , 6.3459202925710326e-15          , 3.71756316371882172e-15         , 2.2802062016055982e-15          , 1.46006383817211087e-15         , 9.7315440152221534e-16          , 6.73176826744268933e-16         , 4.81879584471620852e-16         , 3.55913965747239614e-16         , 2.70464827338962731e-16         , 2.10883552872239191e-16         , 1.68270866069105046e-16         , 1.37073061065570597e-16         , },
-/* x = 35.0        */  {0.149799691340274055            , 0.00213999559057533463          , 0.0000917140967389339055        , 6.55100690991484308e-6          , 6.55100690982476998e-7          , 8.4227231688739733e-8           , 1.32357078277946484e-8          , 2.45806001615455361e-9          , 5.2672713731152326e-10          , 1.27919438625488849e-10         , 3.47209814767516016e-11         , 1.04162854357158231e-11         , 3.42248477871125596e-12         , 1.22230698508721977e-12         , 4.71452258366841703e-13         , 1.95306928299462781e-13         , 8.64840609372475931e-14         , 4.07620499893307982e-14         , 2.03720176850080463e-14         , 1.07590591809897573e-14         , 5.9853256626083691e-15          , 3.49668343558469191e-15         , 2.13895537220181505e-15         , 1.36603542961524255e-15         , 9.08187907370024296e-16         , 6.26724225501664165e-16         , 4.47606054636716764e-16         , 3.29894417424732708e-16         , 2.50195446890651429e-16         , 1.9472326852503475e-16          , 1.55116588099462162e-16         , 1.26165717115035613e-16         , },
-/* x = 35.1        */  {0.149586149262588317            , 0.00213085682710238954          , 0.0000910622575684700587        , 6.48591578122193423e-6          , 6.46743738860157109e-7          , 8.29158639483034676e-8          , 1.29925142857667747e-8          , 2.4060211559039532e-9           , 5.14107076467930784e-10         , 1.24498856544790119e-10         , 3.36962635874708732e-11         , 1.00800707240218144e-11         , 3.30257914732115049e-12         , 1.17612404804090877e-12         , 4.52347276161646297e-13         , 1.86858981454854358e-13         , 8.25079475006199208e-14         , 3.87776603556052809e-14         , 1.93254644143763272e-14         , 1.01776591563384251e-14         , 5.64612815584375943e-15         , 3.28946928536506369e-15         , 2.00679015261725175e-15         , 1.27827701297449663e-15         , 8.47699559157189114e-16         , 5.83572191477715113e-16         , 4.15835772199384688e-16         , 3.0582315341311571e-16          , 2.31478103714454393e-16         , 1.79825375423892233e-16         , 1.43008356026253221e-16         , 1.16139589182831636e-16         , },
-/* x = 35.2        */  {0.14937351781286783             , 0.00212178292347822889          , 0.000090416885943667194         , 6.42165383121903055e-6          , 6.38516716165014127e-7          , 8.16285574569447137e-8          , 1.2754462095314951e-8           , 2.35522736822265716e-9          , 5.01824005782962472e-10         , 1.21179084972884413e-10         , 3.27045752594531893e-11         , 9.7556188100741143e-12          , 3.1871976763125753e-12          , 1.13181002398458884e-12         , 4.34067534492678562e-13         , 1.7879889603676634e-13          , 7.87251357647788148e-14         , 3.68950747292382516e-14         , 1.83353891509092448e-14         , 9.62916447847037047e-15         , 5.32700561592352945e-15         , 3.09504276922637404e-15         , 1.88310539456542768e-15         , 1.19635686727437885e-15         , 7.91371498047838505e-16         , 5.43479887855342497e-16         , 3.86381462802478585e-16         , 2.83551111210275426e-16         , 2.1419164513120985e-16          , 1.66089552175440149e-16         , 1.31861708508849344e-16         , 1.06922513064088566e-16         , },
-/* x = 35.3        */  {0.149161790537327789            , 0.00211277323707262495          , 0.0000897778995923145576        , 6.35820818641792767e-6          , 6.30417242272781858e-7          , 8.03648042491209941e-8          , 1.25214284174679376e-8          , 2.30564545269105738e-9          , 4.89868007411775111e-10         , 1.17956879021326331e-10         , 3.17447625256467753e-11         , 9.44248648645955151e-12         , 3.07615753674265921e-12         , 1.08928429637434187e-12         , 4.16575196991066378e-13         , 1.71107841617605959e-13         , 7.5125722317391508e-14          , 3.5108806543002486e-14          , 1.73985996383447982e-14         , 9.11163019944494725e-15         , 5.02672072578482557e-15         , 2.91258435154721801e-15         , 1.76733757193464756e-15         , 1.11987388384015415e-15         , 7.38909036863215127e-16         , 5.06224479721717907e-16         , 3.59070168949905895e-16         , 2.62940855756384638e-16         , 1.98224540065961728e-16         , 1.5342357288690597e-16          , 1.21599097200895116e-16         , 9.84483058259255672e-17         , },
-/* x = 35.4        */  {0.148950961046037182            , 0.0021038271334185983           , 0.0000891452175177312465        , 6.29556620887335576e-6          , 6.22442986747045844e-7          , 7.91241084788244065e-8          , 1.22932936842432748e-8          , 2.25724318464008413e-9          , 4.78229482301647547e-10         , 1.14829107012477297e-10         , 3.0815714838876454e-11          , 9.14024843180494127e-12         , 2.96928377523867171e-12         , 1.04846993977897035e-12         , 3.99834261714922418e-13         , 1.63767951202218332e-13         , 7.17003367606366684e-14         , 3.34136789334084446e-14         , 1.65120920629040025e-14         , 8.62323109762367108e-15         , 4.74411536993829084e-15         , 2.74132889197426191e-15         , 1.65896183247459154e-15         , 1.04845533680317003e-15         , 6.90038929577073593e-16         , 4.71599758948932556e-16         , 3.33742134049482758e-16         , 2.43865656623310806e-16         , 1.83474103087428154e-16         , 1.41742644919367566e-16         , 1.12149314047323521e-16         , 9.06562647061377643e-17         , },
-/* x = 35.5        */  {0.148741023012108812            , 0.00209494398608603422          , 0.0000885187599754608484        , 6.23371549122425095e-6          , 6.14591668143483549e-7          , 7.79059860973088349e-8          , 1.20699415026475003e-8          , 2.20998928383088509e-9          , 4.66899139085050894e-10         , 1.11792746225650738e-10         , 2.99163633220098762e-11         , 8.84849644137386747e-12         , 2.86640895390050904e-12         , 1.00929354116690023e-12         , 3.83810467420330937e-13         , 1.5676226944403926e-13          , 6.84401116634141879e-14         , 3.18048064821106829e-14         , 1.56730394677614675e-14         , 8.16225402316006454e-15         , 4.47810538366806765e-15         , 2.58056191644480367e-15         , 1.55748926400446259e-15         , 9.81754819963254974e-16         , 6.44507772893848877e-16         , 4.39414876182941992e-16         , 3.10249774965075043e-16         , 2.26208639582243151e-16         , 1.69845781890333236e-16         , 1.30968801478018041e-16         , 1.03446966540751421e-16         , 8.34907083968468051e-17         , },
-/* x = 35.6        */  {0.148531970170901827            , 0.00208612317655760507          , 0.0000878984484504560279        , 6.17264385185300713e-6          , 6.06861052845856991e-7          , 7.67099645402623704e-8          , 1.18512585617535664e-8          , 2.16385338422421656e-9          , 4.55867983389481797e-10         , 1.08844878814452894e-10         , 2.90456790932929845e-11         , 8.56683869279505877e-12         , 2.76737280761435199e-12         , 9.71685030311998732e-13         , 3.68471204863475783e-13         , 1.50074703776633535e-13         , 6.53366542827408648e-14         , 3.02775780784544737e-14         , 1.48787809073232664e-14         , 7.72709075037178148e-15         , 4.22767566179788573e-15         , 2.42961615153403513e-15         , 1.46246435914990867e-15         , 9.19450337321009499e-16         , 6.02080529629177427e-16         , 4.09493171451400004e-16         , 2.8845673594847453e-16          , 2.09862006471617085e-16         , 1.57252502969788287e-16         , 1.21030344449268521e-16         , 9.54319968822588356e-17         , 7.69005570973002153e-17         , },
-/* x = 35.7        */  {0.148323796319236555            , 0.00207736409410695017          , 0.0000872842056347414204        , 6.11233933015957982e-6          , 5.99248953932828514e-7          , 7.55355824241226021e-8          , 1.16371345427485405e-8          , 2.11880600479871421e-9          , 4.45127307547309256e-10         , 1.05982687887975143e-10         , 2.82026716634271083e-11         , 8.29489904522600975e-12         , 2.67202191789028076e-12         , 9.3557751882947957e-13          , 3.53785432851033201e-13         , 1.43689978289184665e-13         , 6.2382019945833989e-14          , 2.88276408316574768e-14         , 1.4126811292378626e-14          , 7.31623130232256826e-15         , 3.99187560165829653e-15         , 2.28786830302258218e-15         , 1.37346266383463927e-15         , 8.61242535579565503e-16         , 5.62539164426635695e-16         , 3.81671095584416793e-16         , 2.68237017403746028e-16         , 1.94726317790206575e-16         , 1.45614070676240498e-16         , 1.11861333282463842e-16         , 8.80492413373610176e-17         , 7.08389480308295802e-17         , },
-/* x = 35.8        */  {0.148116495314621405            , 0.00206866613567906594          , 0.0000866759554055434987        , 6.05279018194740484e-6          , 5.91753230074700094e-7          , 7.43823892512429286e-8          , 1.1427462031848674e-8           , 2.07481852137884921e-9          , 4.34668680689603071e-10         , 1.03203453748828128e-10         , 2.73863874011253657e-11         , 8.03231637034182167e-12         , 2.5802094023841292e-12          , 9.00907147380516517e-13         , 3.39723598772565621e-13         , 1.37593590185002172e-13         , 5.95686869912963663e-14         , 2.74508849658454273e-14         , 1.34147718805355092e-14         , 6.92825771538500476e-15         , 3.76981485672859899e-15         , 2.15473606100035001e-15         , 1.2900885958766418e-15          , 8.06853067824041661e-16         , 5.25681383093330449e-16         , 3.55797215269911929e-16         , 2.49474173470921934e-16         , 1.80709832900996712e-16         , 1.34856615241722364e-16         , 1.03401116068864202e-16         , 8.12480263940710893e-17         , 6.52628834048999797e-17         , },
-/* x = 35.9        */  {0.147910061074491618            , 0.00206002870577286019          , 0.0000860736228038763818        , 5.99398487491818332e-6          , 5.84371784459205241e-7          , 7.32499451236281372e-8          , 1.12221364359827659e-8          , 2.03186313943494483e-9          , 4.24483939208596865e-10         , 1.00504550281326311e-10         , 2.65959080640429294e-11         , 7.7787439136209462e-12          , 2.49179461930869335e-12         , 8.6761294061002443e-13          , 3.26257563364249023e-13         , 1.31771768671944873e-13         , 5.68895331742717451e-14         , 2.61434296355625044e-14         , 1.27404413694583271e-14         , 6.56183821382142522e-15         , 3.56065937912891104e-15         , 2.02967531513517523e-15         , 1.21197342107566523e-15         , 7.5602307842374881e-16          , 4.91319467525576923e-16         , 3.31731295141692175e-16         , 2.32060572905940528e-16         , 1.6772790315369188e-16          , 1.24912085736396691e-16         , 9.55938992951927626e-17         , 7.4981798618894178e-17          , 6.01329080525455967e-17         , },
-/* x = 36.0        */  {0.147704487575459666            , 0.00205145121632582547          , 0.0000854771340135728397        , 5.93591208427267008e-6          , 5.77102563745510254e-7          , 7.21378204649672223e-8          , 1.10210559011484328e-8          , 1.98991286781912977e-9          , 4.14565177574092549e-10         , 9.78834414834345877e-11         , 2.58303493921246408e-11         , 7.53384868447686713e-12         , 2.406642885981735e-12           , 8.35636669406393757e-13         , 3.1336052946791121e-13          , 1.26211436142866677e-13         , 5.43378134464700364e-14         , 2.49016096034789839e-14         , 1.21017275533158345e-14         , 6.21572176652307664e-15         , 3.36362773071355044e-15         , 1.91217756494765571e-15         , 1.1387733751350672e-15          , 7.08511799972967601e-16         , 4.59279198829237782e-16         , 3.09343450827892977e-16         , 2.15896718183308124e-16         , 1.55702413620707967e-16         , 1.15717784251591406e-16         , 8.83883530460604613e-17         , 6.92077853707390316e-17         , 5.54128142304267221e-17         , },
-/* x = 36.1        */  {0.147499768852577068            , 0.00204293308660078751          , 0.0000848864163407500368        , 5.87856068841468566e-6          , 5.69943557045608317e-7          , 7.10455957507007722e-8          , 1.08241212333494375e-8          , 1.9489414934025427e-9           , 4.04904739489737335e-10         , 9.53376781363771444e-11         , 2.50888597605548596e-11         , 7.29731087385799408e-12         , 2.32462521079818538e-12         , 8.04922720094871956e-13         , 3.01006974563111683e-13         , 1.20900171512816614e-13         , 5.19071390275960625e-14         , 2.37219627258419773e-14         , 1.14966595055344861e-14         , 5.888732999998569e-15           , 3.17798764397596795e-15         , 1.80176751105450665e-15         , 1.07016792064355237e-15         , 6.64095253796129519e-16         , 4.29398861821866788e-16         , 2.88513367373852733e-16         , 2.00890618160487315e-16         , 1.44561269496212222e-16         , 1.07215937914298711e-16         , 8.17372487013257792e-17         , 6.38866837742232092e-17         , 5.10693712652120567e-17         , },
-/* x = 36.2        */  {0.147295898998607438            , 0.00203447374307468574          , 0.0000843013981936998249        , 5.82191976475565219e-6          , 5.6289279493231573e-7           , 6.99728612458692693e-8          , 1.06312358220256284e-8          , 1.90892355658047931e-9          , 3.95495209375700583e-10         , 9.28648946060834607e-11         , 2.43706188896287071e-11         , 7.06882329800739628e-12         , 2.24561803795169552e-12         , 7.75417970197859521e-13         , 2.89172586862912271e-13         , 1.15826175587805209e-13         , 4.95914576899807017e-14         , 2.26012181947790672e-14         , 1.09233802534517771e-14         , 5.57976744351321912e-15         , 3.00305281532675217e-15         , 1.69800081437897997e-15         , 1.00585812915659461e-15         , 6.22565046197349013e-16         , 4.01528324639733628e-16         , 2.69129577900390315e-16         , 1.86957210021563773e-16         , 1.34237923532930815e-16         , 9.93533056208909651e-17         , 7.55971264230952496e-17         , 5.89823755746399279e-17         , 4.7072077937767219e-17          , },
-/* x = 36.3        */  {0.147092872163310547            , 0.00202607261932934401          , 0.0000837220090631936667        , 5.76597858561703167e-6          , 5.55948348473104507e-7          , 6.8919216750497329e-8           , 1.0442305565890305e-8           , 1.86983432761349156e-9          , 3.86329404164847049e-10         , 9.04628057709080199e-11         , 2.36748366089913882e-11         , 6.8480908671396909e-12          , 2.16950300426632641e-12         , 7.47071670415710292e-13         , 2.77834204776123756e-13         , 1.10978238347520603e-13         , 4.73850351831342358e-14         , 2.15362854898875567e-14         , 1.03801399127888611e-14         , 5.28778708396135944e-15         , 2.8381799145578492e-15          , 1.6004620112848299e-15          , 9.45565179168795033e-16         , 5.83727253236950553e-16         , 3.75528187665888563e-16         , 2.51088797769082276e-16         , 1.74017826565151925e-16         , 1.24670941189530106e-16         , 9.20808166367904886e-17         , 6.99279899545990566e-17         , 5.44616656987352342e-17         , 4.33929356753399855e-17         , },
-/* x = 36.4        */  {0.14689068255273722             , 0.00201772915594419045          , 0.0000831481795031925258        , 5.71072661422812015e-6          , 5.49108328289029653e-7          , 6.78842713522772612e-8          , 1.02572388010929617e-8          , 1.83164978377371204e-9          , 3.77400365400046917e-10         , 8.81292040703095131e-11         , 2.30007516738134027e-11         , 6.63483007785462117e-12         , 2.09616670753284687e-12         , 7.19835332500771108e-13         , 2.66969759550216826e-13         , 1.06345708031473256e-13         , 4.52824377295417028e-14         , 2.05242439946406763e-14         , 9.86528925202457022e-15         , 5.01181620961365576e-15         , 2.6827657954656266e-15          , 1.50876257347604027e-15         , 8.89028961462016115e-16         , 5.47401387373018772e-16         , 3.51268996449133567e-16         , 2.34295309903469591e-16         , 1.61999705220357013e-16         , 1.15803600434669823e-16         , 8.53532384460423308e-17         , 6.46930264613936027e-17         , 5.02940425300448349e-17         , 4.00062407870573674e-17         , },
-/* x = 36.5        */  {0.146689324428534857            , 0.00200944280039088652          , 0.0000825798411119523135        , 5.6561535008167244e-6           , 5.42370883638032666e-7          , 6.68676431863233949e-8          , 1.00759462316283722e-8          , 1.79434658726688586e-9          , 3.6870135162078242e-10          , 8.58619566694127382e-11         , 2.23476306305845312e-11         , 6.42876852816580701e-12         , 2.02550048577592214e-12         , 6.9366262271543574e-13          , 2.56558220919801649e-13         , 1.01918461924698674e-13         , 4.32785155273207435e-14         , 1.95623332360320537e-14         , 9.377273658765442e-15           , 4.75093752332981835e-15         , 2.53624489367970275e-15         , 1.42253910232360545e-15         , 8.36006783954389313e-16         , 5.13419439817848005e-16         , 3.2863051370129098e-16          , 2.18660397261899224e-16         , 1.50835535467291038e-16         , 1.07583523404408361e-16         , 7.91288714520252761e-17         , 5.98583493359017269e-17         , 4.64514580763505097e-17         , 3.68883941289420057e-17         , },
+/* x = 0.0         */  {1.0                             , 0.333333333333333333            , 0.2                             , 0.142857142857142857            , 0.111111111111111111            , 0.0909090909090909091           , 0.0769230769230769231           , 0.0666666666666666667           , 0.0588235294117647059           , 0.0526315789473684211           , 0.047619047619047619            , 0.0434782608695652174           , 0.04                            , 0.037037037037037037            , 0.0344827586206896552           , 0.0322580645161290323           , 0.030303030303030303            , 0.0285714285714285714           , 0.027027027027027027            , 0.025641025641025641            , 0.0243902439024390244           , 0.0232558139534883721           , 0.0222222222222222222           , 0.0212765957446808511           , 0.0204081632653061224           , 0.019607843137254902            , 0.0188679245283018868           , 0.0181818181818181818           , 0.017543859649122807            , 0.0169491525423728814           , 0.0163934426229508197           , 0.015873015873015873            , 0.0153846153846153846           , 0.0149253731343283582           , 0.0144927536231884058           , 0.0140845070422535211           , 0.0136986301369863014           , },
+/* x = 0.1         */  {0.967643312635591831            , 0.314029472998161289            , 0.186255004792621473            , 0.132188029635738948            , 0.102393947071065319            , 0.0835405280181414827           , 0.0705419508179836834           , 0.0610397129891415521           , 0.0537913840058185382           , 0.0480805503147778837           , 0.0434651897241010828           , 0.0396578308508158282           , 0.0364634576640223775           , 0.0337451178229993164           , 0.0314038159251098418           , 0.0293662189611291984           , 0.0275768487952278917           , 0.0259929610328042599           , 0.0245810905609476138           , 0.0233146635955106875           , 0.0221723109447862008           , 0.0211366535013732894           , 0.0201934126154593462           , 0.0193307482985550342           , 0.0185387599806351692           , 0.0178091050758185923           , 0.0171347041539431657           , 0.0165095106151410486           , 0.0159283289839905094           , 0.0153866702574973225           , 0.0148806357819122757           , 0.0144068233034462217           , 0.0139622504057619667           , 0.0135442916928413016           , 0.0131506269220381663           , 0.0127791979233694993           , 0.012428172616374402            , },
+/* x = 0.2         */  {0.937150028797978684            , 0.296048189299992062            , 0.173534537054985821            , 0.122354830492368121            , 0.0943826509214874721           , 0.0767827630385134765           , 0.0646991008641659577           , 0.0558938953904389795           , 0.049194194446507084            , 0.0439263812815964213           , 0.0396762281808753649           , 0.0361750968010020104           , 0.0332411833626609533           , 0.0307470774713549343           , 0.0286008466215034188           , 0.0267344973640432192           , 0.0250966630183948392           , 0.0236478163226195912           , 0.0223570455342595805           , 0.0211998292240565479           , 0.0201564666505587781           , 0.0192109489873201069           , 0.0183501334419568451           , 0.0175631295251904271           , 0.0168408365149205401           , 0.0161755903828115116           , 0.0155608911135130851           , 0.0149911898455291228           , 0.0144617210652997339           , 0.0139683691102574388           , 0.0135075610680175811           , 0.0130761801777264708           , 0.012671495296964507            , 0.0122911030617777433           , 0.0119328801528173536           , 0.0115949436660388464           , 0.0112756180269405942           , },
+/* x = 0.3         */  {0.908392877032750536            , 0.279291093918387782            , 0.161758435122409136            , 0.113289924883879687            , 0.0870187558423999078           , 0.0705843031664688398           , 0.0593485235823989523           , 0.0511876431491141905           , 0.044994044258324985            , 0.0401342195163447976           , 0.0362199168813888128           , 0.0330000563790786712           , 0.0303051267284859535           , 0.028016579217384951            , 0.0260490303127930181           , 0.0243394306487994296           , 0.0228402157184407513           , 0.0215148300447115443           , 0.0203347181386436388           , 0.0192772507468279517           , 0.0183242640742870866           , 0.0174610106067544756           , 0.0166753923478743103           , 0.0159573916210434934           , 0.0152986425122105417           , 0.0146921040276644611           , 0.0141318078819494196           , 0.013612661769335624            , 0.0131302943862357586           , 0.0126809322228672886           , 0.0122613007790869345           , 0.0118685447376419012           , 0.0115001629828698489           , 0.0111539553413705234           , 0.0108279786501786726           , 0.0105205103010175689           , 0.0102300178175492079           , },
+/* x = 0.4         */  {0.881254034939924496            , 0.263667486130356494            , 0.150853015444287727            , 0.104931288982249165            , 0.0802487210501310663           , 0.0648980542694253695           , 0.054448188660049705            , 0.0468830081812585806           , 0.0411563458540492596           , 0.0366722918539976414           , 0.0330668739878948582           , 0.0301053846376909014           , 0.0276297507890642893           , 0.0255296546137099154           , 0.0237257856681605194           , 0.0221596729262697024           , 0.0207872683484018425           , 0.0195747618270268762           , 0.0184957723878767068           , 0.0175294153947485621           , 0.0166589429494432756           , 0.01587076861441875             , 0.0151537554804586864           , 0.0144986882312519817           , 0.0138978760415047967           , 0.0133448499976196706           , 0.0128341298037048729           , 0.0123610419508987068           , 0.0119215765797369699           , 0.0115122737617099804           , 0.0111301323815619301           , 0.0107725365495480468           , 0.0104371957323595608           , 0.0101220957096651912           , 0.00982545813991064067          , 0.00954570702274363171          , 0.00928144072394818833          , },
+/* x = 0.5         */  {0.855624391892148803            , 0.24909373217951538             , 0.140750536825912715            , 0.0972220244169301519           , 0.0740235112058776398           , 0.0596809411402653349           , 0.0499596928302852604           , 0.0429453470810749614           , 0.0376495465034909974           , 0.0335116308467135329           , 0.030190326374923702            , 0.0274661941607643174           , 0.0251918059849458768           , 0.0232644899110134958           , 0.0216105678847309638           , 0.0201758089445645278           , 0.0189194175688669391           , 0.017810120059975568            , 0.016823542386511456            , 0.0159404085882904469           , 0.0151452752306940054           , 0.0144256247458207964           , 0.0137712043576608199           , 0.0131735363821034731           , 0.0126255502462298103           , 0.012121302352627282            , 0.0116557602713579603           , 0.0112246346693384704           , 0.0108242471009824472           , 0.0104514250433660664           , 0.0101034178459644965           , 0.00977782889120086437          , 0.00947256043302103181          , 0.00918576843373364421          , 0.00891582534752073822          , 0.00866128926629751358          , 0.0084208781944900403           , },
+/* x = 0.6         */  {0.831402871214021221            , 0.235492695933328991            , 0.131388709754967116            , 0.0901099272340076235           , 0.0682982121200224433           , 0.054893560821812964            , 0.0458479441215968095           , 0.0393430312389434092           , 0.0344448604084372543           , 0.030625825707839075            , 0.0275658769624299941           , 0.0250598167641695365           , 0.0229701245682274232           , 0.021201231759715957            , 0.0196846845152536726           , 0.0183701790402750597           , 0.0172199284620836816           , 0.0162050026289458826           , 0.0153028799325662142           , 0.0144957678424362432           , 0.0137694248008225435           , 0.0131123172830815415           , 0.0125150058987332114           , 0.0119696911241400686           , 0.0114698722837973272           , 0.0110100881767021656           , 0.0105857174314866793           , 0.0101928231456396414           , 0.00982803076346153693          , 0.00948843118606764371          , 0.00917150323663712197          , 0.00887505111736500631          , 0.00859715358330747056          , 0.00833612235079929484          , 0.00809046784127193474          , 0.00785887079478088675          , 0.00764015861284710558          , },
+/* x = 0.7         */  {0.808495806912583465            , 0.22279321651512425             , 0.122710246967116598            , 0.0835470936029810523           , 0.0630316795924698939           , 0.0504998661005853788           , 0.0420808737964497515           , 0.0360471825445980393           , 0.031516024555400768            , 0.0279907954645739576           , 0.0251712928824969137           , 0.0228656048150183382           , 0.0209454335385801877           , 0.0193218104807822699           , 0.0179311279926512668           , 0.0167267199967694455           , 0.0156735829346023549           , 0.0147449521789058558           , 0.0139200160502110283           , 0.0131823500474275242           , 0.0125188200416170915           , 0.0119187985106365979           , 0.0113735944042601406           , 0.0108760317144977222           , 0.0104201334214167358           , 0.0100008813271503847           , 0.00961403135232864805          , 0.00925596991572059431          , 0.00892360112373083739          , 0.00861425732946301189          , 0.00832562760493441919          , 0.00805570007827861117          , 0.00780271510010213496          , 0.00756512693944946985          , 0.00734157225121783212          , 0.00713084395901492967          , 0.0069318694990360656           , },
+/* x = 0.8         */  {0.78681637046172043             , 0.210929628965311774            , 0.114662451736696081            , 0.0774895591039117593           , 0.0581862185063504523           , 0.0464668765249577995           , 0.0386291735358213771           , 0.0330314324052851944           , 0.0288390762262852032           , 0.0255845823310167891           , 0.0229863126075608765           , 0.0208647504009730089           , 0.0191001844407235081           , 0.0176097793130413199           , 0.0163344233343087788           , 0.0152308203610831209           , 0.0142665419227219724           , 0.0134168245828771868           , 0.0126624351771749667           , 0.0119882108989076096           , 0.0113820380876094889           , 0.0108341234217296587           , 0.0103364643857210842           , 0.00988245827514199957          , 0.00946660925903274278          , 0.00908430598461425291          , 0.00873165068631581695          , 0.00840532641094794199          , 0.00810249280307201127          , 0.00782070353617690692          , 0.00755784032325994797          , 0.00731205975102202178          , 0.00708175012322861297          , 0.00686549618289890735          , 0.00666205008562825068          , 0.00647030736945481585          , 0.00628928694629395882          , },
+/* x = 0.9         */  {0.76628404352069614             , 0.199841324322276127            , 0.107196840681238483            , 0.0718969687031073898           , 0.0537272895450847871           , 0.0427644145362022065           , 0.0354660556431250888           , 0.0302717020111261349           , 0.0263921502368293954           , 0.023387163491944783            , 0.0209924703368620916           , 0.0190401207408360062           , 0.0174183984992383498           , 0.0160501681890886855           , 0.0148804896471085538           , 0.0138691889030827488           , 0.0129862201416478336           , 0.0122086694076552212           , 0.0115187608485186827           , 0.0109024953636623041           , 0.0103486996901281938           , 0.00984834864147601998          , 0.0093940732460387484           , 0.00897979796174698122          , 0.00860046914528278091          , 0.00825184909903175159          , 0.00793035795001123286          , 0.0076329508944423498           , 0.00735702191873895957          , 0.00710032757084532411          , 0.00686092607737500599          , 0.00663712832182014076          , 0.00642745807448319761          , 0.00623061950044929597          , 0.00604547043861317677          , 0.00587100029095004747          , 0.00570631162047458814          , },
+/* x = 1.0         */  {0.746824132812427025            , 0.189472345820492352            , 0.100268798145017367            , 0.0667322747768222568           , 0.0496232411331567381           , 0.0393648645134841608           , 0.0325670342384417239           , 0.0277460019641500443           , 0.0241552941454041711           , 0.0213802796502142938           , 0.0191729360913146307           , 0.0173761083730824617           , 0.0158855257047271492           , 0.014629350723368204            , 0.013556514179749593            , 0.0126297350206479381           , 0.0118211722343218805           , 0.0111096212805898677           , 0.0104786518246015238           , 0.00991533816940702972          , 0.00940937371771591874          , 0.00895244062745517334          , 0.00853775290456506606          , 0.00815971976699282546          , 0.00781369393861023742          , 0.00749578091022965594          , 0.00720269262513506575          , 0.00693163398035808159          , 0.00668021387412608286          , 0.00644637482687220083          , 0.00622833680700876379          , 0.00602455202804613487          , 0.00583366829773208768          , 0.00565449909057168867          , 0.00548599894843040955          , 0.00532724313512796872          , 0.00517741071132172893          , },
+/* x = 1.1         */  {0.728367323703093494            , 0.179771018184097246            , 0.0938372594791873564           , 0.0619614607717532857           , 0.0458450644109970211           , 0.0362429527276789258           , 0.0299097255938130136           , 0.0254342495552225563           , 0.022110299831935814            , 0.0195472788385587659           , 0.0175123701066077271           , 0.015858494791219416            , 0.0144883165908940978           , 0.0133349232155785873           , 0.0123508377829737741           , 0.0115014600037090431           , 0.0107609892804094468           , 0.0101098011615600867           , 0.00953270770751067402          , 0.0090177733999160843           , 0.00855549040847624283          , 0.00813819229520291032          , 0.0077596295434752683           , 0.00741465716286705465          , 0.00709900134394182519          , 0.0068090827977590369           , 0.00654188135801424022          , 0.00629483103485235378          , 0.0060657378267272293           , 0.00585271473880568943          , 0.00565412995066187412          , 0.00546856513286125822          , 0.00529478166917259756          , 0.00513169309006331273          , 0.00497834242552836332          , 0.00483388348335341621          , 0.00469756528182408997          , },
+/* x = 1.2         */  {0.710849269313848801            , 0.170689607250686127            , 0.0878644207666067847           , 0.0575532883003465944           , 0.0423661692459266935           , 0.0333755463754742271           , 0.0274736659241726675           , 0.0233181021258510751           , 0.020240549989818346            , 0.0178729741311290773           , 0.0159967902413543217           , 0.0144743263150994416           , 0.0132147055562854421           , 0.0121555945812224817           , 0.0112528507420020461           , 0.0104743581691071829           , 0.00979620472088357198          , 0.0092002266153982411           , 0.00867238317780680911          , 0.00820165236110410017          , 0.00777926257119075422          , 0.00739814729442451102          , 0.00705255072835494891          , 0.00673773785990441846          , 0.00644977812637732128          , 0.00618538178345276922          , 0.00594177460162047236          , 0.00571660082236789108          , 0.00550784721584663026          , 0.00531378307960659506          , 0.00513291241024458824          , 0.00496393546363241078          , 0.00480571762359990933          , 0.00465726400908000409          , 0.0045176986233992405           , 0.0043862471259772907           , 0.00426222251341064295          , },
+/* x = 1.3         */  {0.694210212260006337            , 0.162184007394612975            , 0.0823154727499332003           , 0.0534790656598666917           , 0.0391621794557900918           , 0.0307414700261916241           , 0.0252401450977289471           , 0.0213808050909475806           , 0.018530878203923502            , 0.0163435140125718967           , 0.0146134512326359362           , 0.0132118010966700217           , 0.01205370468822996             , 0.0110810862198986141           , 0.0102528980397115302           , 0.0095393269683160659           , 0.00891820883991747682          , 0.00837273026279389695          , 0.00788991006298991933          , 0.00745956896023631234          , 0.00707361400584753005          , 0.00672553123297543416          , 0.00641001922458887152          , 0.00612272002787946744          , 0.00586001856781629488          , 0.00561889107268686386          , 0.00539678910500671296          , 0.00519154981974737835          , 0.0050013257892666177           , 0.00482452959776330986          , 0.004659789705393338            , 0.00450591499806962102          , 0.00436186609398981573          , 0.00422673195204823813          , 0.00409971067431513534          , 0.00398009365143528292          , 0.00386725239149710925          , },
+/* x = 1.4         */  {0.678394636355279378            , 0.154213454433454607            , 0.077158356913841909            , 0.0497124359384296672           , 0.0362107455812147118           , 0.0283213379604735463           , 0.023192054865572333            , 0.0196070533252978045           , 0.0169674414063787825           , 0.0149462642738688661           , 0.0133507347363935642           , 0.0120601662580922752           , 0.0109953071408985184           , 0.0101020409217344584           , 0.00934219319472282163          , 0.0086880852519126251           , 0.00811917102417317894          , 0.00761988566289586713          , 0.00717822652133888303          , 0.00678479190997578404          , 0.00643211448123182164          , 0.00611418921032078946          , 0.00582613289363838209          , 0.00556393438290025604          , 0.00532426859096627031          , 0.00510435607705027434          , 0.00490185570998482652          , 0.00471478167413904585          , 0.00454143862001465879          , 0.00438037049972466923          , 0.00423031983648178849          , 0.00409019502992236456          , 0.00395904390839374658          , 0.00383603217999537539          , 0.00372042575645845498          , 0.00361157616215247032          , 0.00350890841829246982          , },
+/* x = 1.5         */  {0.663350945840334806            , 0.146740261897301659            , 0.0723635418478250493           , 0.0462291830302318058           , 0.0334913736877309372           , 0.026097401013716202            , 0.0213137503341494644           , 0.017982864731837736            , 0.0155376036097120705           , 0.0136697004055584563           , 0.0121980491857269472           , 0.0110096242506120207           , 0.0100303992052155488           , 0.0092099399939862971           , 0.00851273989640006429          , 0.00791309894905734518          , 0.0073919690907826239           , 0.00693493994913225328          , 0.00653091269039967864          , 0.00617120313211942694          , 0.00584892066807594057          , 0.00555852908089457819          , 0.00529553011001234443          , 0.00505623160070855678          , 0.00483757502829077991          , 0.00463700541260612883          , 0.00445237196482758051          , 0.00428185132914397931          , 0.00412388765149634441          , 0.00397714532895393414          , 0.00384047141995076182          , 0.00371286548952221406          , 0.00359345523048988566          , 0.00348147661113757972          , 0.00337625759926267068          , 0.00327720473356481589          , 0.0031837919782240331           , },
+/* x = 1.6         */  {0.649031169897861785            , 0.139729578719751993            , 0.067903818176437678            , 0.0430070540273540568           , 0.030985268811507184            , 0.0240534066590341398           , 0.0195909235171000405           , 0.0164954649148890994           , 0.0142298299152128381           , 0.0125033095512383873           , 0.0111457385871481097           , 0.0100512476048296548           , 0.00915068028638332871          , 0.00839702786403994041          , 0.00775726072950718207          , 0.00720751348782902233          , 0.00673012504001383865          , 0.00631175260181289595          , 0.00594213220899873425          , 0.0056132417932180496           , 0.0053187224815151644           , 0.00505346992108322867          , 0.00481334019122607014          , 0.00459493456578679615          , 0.00439543956166375327          , 0.00421250641464640676          , 0.00404415911009729252          , 0.00388872338765659227          , 0.00374477135201786449          , 0.00361107783448839614          , 0.00348658570004998871          , 0.00337037803387309467          , 0.00326165566854673626          , 0.00315971889402576509          , 0.0030639524703346415           , 0.00297381326826089212          , 0.00288882001620872885          , },
+/* x = 1.7         */  {0.635390690402152862            , 0.133149166573358298            , 0.0637541104903941889           , 0.0400255965880106748           , 0.0286751917833353157           , 0.0221744711756715268           , 0.0180104879057800425           , 0.0151331819771782064           , 0.0130335898838054252           , 0.0114375011682228172           , 0.0101849994539702576           , 0.00917690131783551765          , 0.00834859007573007521          , 0.00765624348250506763          , 0.00706913234555946348          , 0.00656509234367346783          , 0.00612774664739495662          , 0.00574473979744085834          , 0.00540657907579276229          , 0.00510585345635222195          , 0.00483669433676529581          , 0.00459439522195366997          , 0.00437513837978622314          , 0.00417579501107217381          , 0.00399377690225221137          , 0.0038269247522422667           , 0.00367342303282969155          , 0.00353173431977617699          , 0.0034005480985162012           , 0.00327874045961435832          , 0.0031653420777977914           , 0.00305951255674430154          , 0.00296051971239892556          , 0.00286772272152809156          , 0.00278055832048455413          , 0.00269852942961752489          , 0.00262119572062047566          , },
+/* x = 1.8         */  {0.622387991021315007            , 0.126969195222146797            , 0.0598913048457927367           , 0.037266010002049207            , 0.0265453282757660862           , 0.0204469628500856216           , 0.0165604730914875833           , 0.01388535054659779             , 0.0119392694381611979           , 0.0104635256186538405           , 0.00930780514801011987          , 0.00837917219072943859          , 0.0076172422681084859           , 0.00698115791142378033          , 0.00644232649634875854          , 0.00598016115903540534          , 0.00557947436347528534          , 0.00522882382586052163          , 0.00491942935653658856          , 0.00464444388062978849          , 0.00439845086749311471          , 0.00417711037378643467          , 0.00397690495867504238          , 0.00379495414410843576          , 0.0036288768198638729           , 0.00347668776437312048          , 0.00333671882262294615          , 0.0032075581603971133           , 0.00308800294451519259          , 0.00297702211549428877          , 0.00287372683127124978          , 0.00277734680165547171          , 0.00268721118964116096          , 0.00260273308474692343          , 0.00252339679346036986          , 0.0024487473686608283           , 0.00237838193148118633          , },
+/* x = 1.9         */  {0.609984425946011281            , 0.121162054400888481            , 0.0562940905210606291           , 0.034711008784912656            , 0.0245811690188825104           , 0.018858395249291458            , 0.0152299285577818383           , 0.0127422242180339068           , 0.0109380905389140919           , 0.00957339998392223948          , 0.00850683696628618354          , 0.00765130449194073728          , 0.00695036423473734334          , 0.00636591753836803445          , 0.0058713563982373362           , 0.00544755692795992029          , 0.00508043303792696749          , 0.00475938711288286171          , 0.00447629729691187028          , 0.00422483704292214418          , 0.00400000669771804487          , 0.0037978040483696808           , 0.00361498812033190044          , 0.00344890689271064923          , 0.00329736966704354246          , 0.00315855117434171792          , 0.00303091859705067396          , 0.00291317537396070188          , 0.00280421745926409224          , 0.00270309893563636977          , 0.00260900473155546416          , 0.00252122879006533184          , 0.00243915646091601401          , 0.00236225019392259424          , 0.00229003783425756888          , 0.00222210298450978952          , 0.00215807702041052721          , },
+/* x = 2.0         */  {0.598144006661304101            , 0.115702180856172852            , 0.0529428148329764663           , 0.0323446977320674099           , 0.0227694002219647944           , 0.0173973296902676144           , 0.0140088358390827667           , 0.0116948956678658188           , 0.0100220379453436476           , 0.00875984045855732916          , 0.00777542136899414055          , 0.00698714137806606493          , 0.00634224211472670036          , 0.00580519240788870427          , 0.00535122794409558085          , 0.00496258178553978818          , 0.00462618802878018543          , 0.0043322304282833568           , 0.00407319543832619899          , 0.00384323699536416771          , 0.00363773989564746218          , 0.00345301312123331438          , 0.00328607024410495657          , 0.00313446943702758845          , 0.00299619507592099136          , 0.00286956887087897119          , 0.00275318229455370964          , 0.0026458445936834798           , 0.00254654235399467429          , 0.00245440773527093567          , 0.00236869328609312813          , 0.002288751803767031            , 0.00221402010017756523          , 0.00214400581873226198          , 0.00207827665461221526          , 0.00201645148290754023          , 0.00195819301245566617          , },
+/* x = 2.1         */  {0.586833205308846941            , 0.110565899299015484            , 0.049819349915253462            , 0.0301524574579250952           , 0.0210978033220223229           , 0.0160532861060045229           , 0.0128880283126352003           , 0.010735223764589451            , 0.00918379243234758436          , 0.00801620073736357711          , 0.0071074727992681083           , 0.00638107155515437242          , 0.00578767083704015607          , 0.00529412920786237896          , 0.00487739532364340994          , 0.00452096098397070907          , 0.00421270529764525501          , 0.00394353489745512026          , 0.0037064983709398331           , 0.00349619320756950347          , 0.00330835877195922029          , 0.00313959080889193374          , 0.0029871372688979144           , 0.00284874972557719942          , 0.00272257353551106255          , 0.00260706547310956068          , 0.00250093116085849635          , 0.00240307696964723719          , 0.00231257263752765124          , 0.00222862192526052624          , 0.00215053936604503291          , 0.00207773168470597557          , 0.00200968282940346447          , 0.00194594182339125726          , 0.00188611283672198242          , 0.00182984701924639924          , 0.00177683574131248474          , },
+/* x = 2.2         */  {0.576020773306374634            , 0.105731276123645625            , 0.04690697045650068             , 0.0281208395273112537           , 0.0195551632565556575           , 0.0148166615787879623           , 0.0118591179555303867           , 0.00985576705899116907          , 0.00841666989148492109          , 0.0073364158620249489           , 0.00649744159457730586          , 0.00582798070995216813          , 0.00528190862876499629          , 0.00482830849017977816          , 0.00444572065284548343          , 0.00411880467504207637          , 0.00383631512817511006          , 0.00358982746987380654          , 0.0033729097916475785           , 0.00318056907468784571          , 0.0030088717160209317           , 0.00285467772602825372          , 0.00271545087656386973          , 0.00258912070069096692          , 0.0024739805841230822           , 0.00236861142265844198          , 0.00227182368028333125          , 0.00218261288470060743          , 0.00210012506731807399          , 0.0020236296533628032           , 0.00195249799683443304          , 0.00188618623740148454          , 0.00182422149862719146          , 0.00176619069282580942          , 0.00171173137658985184          , 0.0016605242323558849           , 0.00161228684884862382          , },
+/* x = 2.3         */  {0.565677574001107307            , 0.101177984843109472            , 0.044190241479679279            , 0.0262374703642592742           , 0.0181311845276111274           , 0.0136786558751513941           , 0.0109144284573612176           , 0.00904972309193306422          , 0.00771456579482439774          , 0.00671495104113283215          , 0.00594026653450436458          , 0.00532320728299737443          , 0.00482063560568171264          , 0.00440370574331284399          , 0.00405243724927022915          , 0.00375257315348541557          , 0.00349367913809655414          , 0.00326794952921359847          , 0.00306943256514613321          , 0.00289351330165286851          , 0.00273655979166481267          , 0.00259567559466382299          , 0.00246852322776970759          , 0.00235319598409415385          , 0.00224812337600467333          , 0.00215200036987505643          , 0.00206373372626611827          , 0.00198240081941315974          , 0.00190721768367827218          , 0.00183751396670821311          , 0.00177271311151757381          , 0.00171231653908005845          , 0.00165589092157390183          , 0.00160305786510867066          , 0.00155348548684286961          , 0.00150688149333788465          , 0.00146298745743175568          , },
+/* x = 2.4         */  {0.555776428234162854            , 0.096887182280156323            , 0.0416549153231367637           , 0.0244909631929731906           , 0.0168164143877916315           , 0.0126312033751483708           , 0.0100469341327540782           , 0.00831087300758135687          , 0.007071904546730802            , 0.00614675500104398556          , 0.00543133161050483796          , 0.00486250219399772788          , 0.00439991607761150789          , 0.00401665596893233204          , 0.00369411622328342953          , 0.00341904524704311523          , 0.00318176028519251431          , 0.00297502835873759771          , 0.00279334151383404507          , 0.0026324339005098259           , 0.00248895183968139724          , 0.00236022336198432993          , 0.00224409401581535071          , 0.00213880779630797471          , 0.00204291940355464751          , 0.00195522864265942179          , 0.00187473072629541833          , 0.00180057816755097257          , 0.00173205123456062244          , 0.00166853480844645332          , 0.00160950008519338382          , 0.00155448998070498114          , 0.00150310739479193923          , 0.00145500570251323888          , 0.00140988099561968777          , 0.00136746571007207354          , 0.00132752335952181627          , },
+/* x = 2.5         */  {0.546291971785147992            , 0.0928413946322498393           , 0.0392878370545701446           , 0.0228708373297903855           , 0.0156021725369267807           , 0.0116669108416884462           , 0.00925020412693482264          , 0.00763353100525077982          , 0.00648359329097258044          , 0.00562721746452701445          , 0.00496642664042289586          , 0.00444199216499640357          , 0.0040161642342036974           , 0.00366382144623872798          , 0.00336763608490937204          , 0.00311528956769459881          , 0.00289779559492675356          , 0.00270845120173681446          , 0.00254215868737794218          , 0.00239497456181701306          , 0.00226380185739294287          , 0.00214617550584237252          , 0.00204010962546464465          , 0.00194398690440204278          , 0.00185647717659944311          , 0.00177647660589478346          , 0.0017030616553470323           , 0.00163545382189878335          , 0.00157299231610685781          , 0.00151511267883842001          , 0.00146132988551359714          , 0.00141122487848612608          , 0.00136443374414542962          , 0.00132063894911082601          , 0.0012795621933053095           , 0.00124095854283351207          , 0.00120461158345611242          , },
+/* x = 2.6         */  {0.537200523750481533            , 0.0890244126031053179           , 0.0370768576144196295           , 0.0213674442034162052           , 0.0144804867710729915           , 0.0107790005241005852           , 0.00851835145207164547          , 0.00701249820434567512          , 0.00594497977900985508          , 0.00515213039016031843          , 0.00454171138436772497          , 0.00405814631872852766          , 0.00366611290700427997          , 0.00334216239630252283          , 0.00307015509342966079          , 0.00283863836444736201          , 0.00263927136221814265          , 0.00246584168055092826          , 0.00231363088556704015          , 0.00217899318300896253          , 0.00205906844673378043          , 0.00195158232725983024          , 0.00185470420343054228          , 0.00176694441154625426          , 0.00168707867852693648          , 0.00161409173720884754          , 0.0015471346890994893           , 0.0014854923669113562           , 0.00142855807034436738          , 0.00137581380678751154          , 0.00132681468964025011          , 0.00128117651033103386          , 0.00123856575702331786          , 0.00119869153695803475          , 0.00116129899266431692          , 0.00112616389990461294          , 0.00109308820747954584          , },
+/* x = 2.7         */  {0.5284799649863474              , 0.0854211948604810435           , 0.0350107540447580306           , 0.0199718995340815533           , 0.0134440340738557608           , 0.00996125813425038551          , 0.00784598643277860658          , 0.00644302053451335563          , 0.00545181394036121655          , 0.00471765263822054004          , 0.00415368284934083254          , 0.00370774575859402189          , 0.00334678513109495155          , 0.00304891028474518956          , 0.00279908610155006535          , 0.00258666374170409813          , 0.00240390060242171797          , 0.00224503835929017184          , 0.00210570922877893502          , 0.00198254235649459827          , 0.00187289614139621618          , 0.00177467204768427744          , 0.00168618246493966018          , 0.00160605521898795239          , 0.00153316343568222174          , 0.00146657326086650004          , 0.00140550436378550684          , 0.00134929972979298097          , 0.00129740229608596077          , 0.00124933669206481457          , 0.00120469483186561009          , 0.00116312444519489824          , 0.00112431987176459704          , 0.00108801461573130419          , 0.00105397528041622506          , 0.00102199659425366004          , 0.0009918973059740922           , },
+/* x = 2.8         */  {0.52010962581807524             , 0.0820177791415816563           , 0.0330791562142012507           , 0.0186760211510336229           , 0.0124860866842888206           , 0.00920798527381811086          , 0.0072281741762109383           , 0.00592075029741504159          , 0.00500021282785851051          , 0.00432027775863869886          , 0.00379914549802094882          , 0.00338785586307535005          , 0.00305546825455626538          , 0.00278154352476583383          , 0.00255207366847491934          , 0.00235715602867048141          , 0.00218960254706552837          , 0.00204407525499008413          , 0.00191653058918481778          , 0.00180385163832505233          , 0.00170359844097483495          , 0.00161383454549111931          , 0.00153300407694645807          , 0.00145984300667368718          , 0.00139331405150809507          , 0.00133255819619262387          , 0.00127685810367961648          , 0.00122561015532173366          , 0.00117830284240667614          , 0.00113449989142188842          , 0.00109382695869168783          , 0.00105596104553124871          , 0.00102062200772333994          , 0.000987565692285559133         , 0.000956578349627588736         , 0.000927472053408153182         , 0.000900080922635876946         , },
+/* x = 2.9         */  {0.512070182282748204            , 0.0788012003838518923           , 0.0312724794991635255           , 0.0174722719723121377           , 0.0116004627154789198           , 0.00851395592808673254          , 0.00666039571595634981          , 0.00544171107776298596          , 0.00458662863966164833          , 0.00395680462376565389          , 0.00347518410261037843          , 0.00309580105145012381          , 0.00278969036671476182          , 0.00253776536404514075          , 0.00232697323669165021          , 0.00214810410476734952          , 0.00199448399851389759          , 0.0018611641197502399           , 0.00174440071290537369          , 0.00164131143467096507          , 0.00154964239582076015          , 0.00146760658142136844          , 0.00139376947322614032          , 0.00132696659289122165          , 0.00126624307060003249          , 0.00121080869017144192          , 0.00116000399005798433          , 0.0011132743821837828           , 0.00107015016615531469          , 0.0010302309335251221           , 0.000993173279581892261         , 0.000958681034153137745         , 0.000926497430213870496         , 0.000896398777154198833         , 0.000868189312573119444         , 0.000841696984678967693         , 0.000816769975137840893         , },
+/* x = 3.0         */  {0.504343560231438807            , 0.0757594153105958107           , 0.0295818629273205815           , 0.0163537077114564941           , 0.0107814809353885859           , 0.00787437667510555509          , 0.00613851250971619383          , 0.00500226570974109614          , 0.00420781954637541653          , 0.00362431065341968967          , 0.00317913900785169345          , 0.00282914179950360326          , 0.00254719883678648866          , 0.00231548375863304557          , 0.00212183218587138124          , 0.00195767750373435218          , 0.00181682237465016242          , 0.00169467833259856947          , 0.00158777887884766473          , 0.00149345835824994201          , 0.00140963460064729926          , 0.0013346583764458878           , 0.0012672069698848721           , 0.00120620754615921691          , 0.00115078105026987534          , 0.00110020051589332474          , 0.0010538596571159365           , 0.00101124890988011527          , 0.000971936945923732771         , 0.000935556258298137493         , 0.000901791811954361516         , 0.000870372026892018253         , 0.000841061554388867824         , 0.000813655444568744265         , 0.000787974403040320468         , 0.00076386090698636155          , 0.000741176004694621182         , },
+/* x = 3.1         */  {0.496912846672130588            , 0.0728812329481569003           , 0.0279991123307924024           , 0.0153139289129684203           , 0.0100239193543905058           , 0.00728485028967044298          , 0.00565873399884146237          , 0.00459908703086793625          , 0.00386082307571955447          , 0.00332012740220558385          , 0.00290858358844327211          , 0.00258565370383079164          , 0.00232594077331458091          , 0.00211279305472688977          , 0.00193487259420455127          , 0.00178421013522164204          , 0.00165505029005049953          , 0.00154313825453365781          , 0.00144526395405164797          , 0.00135896192037954337          , 0.00128230846794264278          , 0.00121378141807912065          , 0.00115216106191038414          , 0.00109645893425959359          , 0.0010458657284908214           , 0.000999712629434264919         , 0.000957442210901565287         , 0.000918586255520186154         , 0.000882748654847166514         , 0.000849592085924304069         , 0.000818827528383247421         , 0.000790205941583917196         , 0.00076351160100467376          , 0.000738556721249352954         , 0.000715177085507877717         , 0.000693228468788025228         , 0.00067258369199870728          , },
+/* x = 3.2         */  {0.489762207784512201            , 0.0701562505947103103           , 0.0265166480946507368           , 0.014347036952326167            , 0.00932297729498702405          , 0.00674134244945578145          , 0.00521758796338240326          , 0.00422913117900078549          , 0.00354293182916336988          , 0.00304181829959548012          , 0.00266130370530436049          , 0.00236330841141021174          , 0.00212404523188572731          , 0.0019279573154339012           , 0.00176447555286704958          , 0.00162618547730909729          , 0.00150774153409621888          , 0.00140519791356390746          , 0.00131558171818289778          , 0.00123661243662515664          , 0.00116651266406482718          , 0.001103877382545578            , 0.00104758179235838105          , 0.000996715105900145608         , 0.000950532187334473186         , 0.000908417687659839213         , 0.000869859076919622611         , 0.000834426109120903629         , 0.000801755003638044443         , 0.000771536129531612205         , 0.000743504322499828894         , 0.000717431202206773026         , 0.000693119025103200851         , 0.000670395727084662524         , 0.000649110896297839682         , 0.000629132479091362954         , 0.000610344068300086654         , },
+/* x = 3.3         */  {0.482876813083812836            , 0.0675747948003898229           , 0.0251274571212014338           , 0.0134475936673889642           , 0.00867424064704283998          , 0.00624015127608265975          , 0.00481189342964685634          , 0.00388961320972259499          , 0.00325167132493923022          , 0.00278715835192831943          , 0.00243527898263607027          , 0.00216025624759355609          , 0.0019398070141533007           , 0.0017593951443321988           , 0.00160916689329232758          , 0.00148222310670265067          , 0.00137359831917305537          , 0.00127963289870770026          , 0.00119757334144386421          , 0.00112531003517923795          , 0.00106120060162882946          , 0.00100394807053666702          , 0.000952515095732829752         , 0.000906062410111717179         , 0.000863903920304651813         , 0.000825473438437565664         , 0.000790299690769067183         , 0.000757987304472811405         , 0.000728202173449185127         , 0.00070066007353993133          , 0.000675117717820597427         , 0.000651365664517642058         , 0.00062922264596537033          , 0.000608530997955919094         , 0.000589152948758571798         , 0.000570967585318401301         , 0.000553868357025225295         , },
+/* x = 3.4         */  {0.476242765253032195            , 0.0651278669548097229           , 0.0238250486623681014           , 0.0126105843163991805           , 0.00807365003742179176          , 0.005777879467127948            , 0.00443873590854137478          , 0.00357798483098702833          , 0.00298477978007049199          , 0.00255411563248121828          , 0.0022286657436495688           , 0.00197481039063453903          , 0.00177167191533357619          , 0.00160566587103137138          , 0.00146760419963543348          , 0.00135106644545610168          , 0.00125143968364898125          , 0.00116532935295445612          , 0.00109018491074704188          , 0.00102405466725212798          , 0.000965420891545134073         , 0.000913086263680061401         , 0.000866094026164200114         , 0.000823670767215136127         , 0.000785184720409605662         , 0.000750114902903617345         , 0.000718027954082118397         , 0.000688560530297969939         , 0.00066140576559739223          , 0.000636302746871364353         , 0.000613028250747708433         , 0.000591390196365313957         , 0.000571222413336573498         , 0.000552380427433999692         , 0.000534738040845867626         , 0.000518184537946880394         , 0.000502622387338592426         , },
+/* x = 3.5         */  {0.469847035201623517            , 0.062807093111329288            , 0.0226034137016670519           , 0.0118313835837166798           , 0.00751747166624260828          , 0.00535140879626642483          , 0.00409544476237316748          , 0.00329191406979038236          , 0.00274018966064817637          , 0.00234083440124292823          , 0.00203978145732816222          , 0.00180543245451041514          , 0.00161822329020300678          , 0.00146545697610809552          , 0.00133856499037143976          , 0.00123157161406475035          , 0.00114019094481268001          , 0.00106127396521427707          , 0.000992457908597313801         , 0.000931937027968872844         , 0.00087830866692393431          , 0.000830467417366115141         , 0.000787530789203492902         , 0.000748786013119811408         , 0.000713651313473233632         , 0.000681647276838563892         , 0.000652375385206893965         , 0.000625501713378125633         , 0.000600744401925487011         , 0.000577863926776322698         , 0.000556655465354934066         , 0.000536942852047496751         , 0.000518573750953399228         , 0.000501415769950349869         , 0.000485353309193562928         , 0.000470284987433905899         , 0.000456121526498402583         , },
+/* x = 3.6         */  {0.463677401944206322            , 0.060604677707904689            , 0.0214569875939474314           , 0.011105724378117305            , 0.00700227058326785757          , 0.0049578767780719663           , 0.00377957251548598174          , 0.00302926670194794469          , 0.00251601084471202911          , 0.00214561971011276863          , 0.00186709056178472822          , 0.00165071935419260163          , 0.00147816981932462176          , 0.00133757264386430324          , 0.00122093596347828147          , 0.00112269729077466693          , 0.00103887410648918249          , 0.000966544870395897425         , 0.000903520557856090148         , 0.000848130304636496484         , 0.000799077699101500287         , 0.000755342113315132077         , 0.000716109503508072014         , 0.000680722945912594421         , 0.000648646668138802359         , 0.000619439484931771498         , 0.000592734900587192445         , 0.0005682260116428665           , 0.000545653915703485656         , 0.000524798714973072443         , 0.000505472463349821294         , 0.000487513585700908073         , 0.000470782423870089975         , 0.000455157653369901052         , 0.000440533378957056897         , 0.00042681676399227293          , 0.000413926082799835724         , },
+/* x = 3.7         */  {0.457722396925483523            , 0.0585133608723167745           , 0.0203806156954879638           , 0.0104296691901487065           , 0.00652488619739210191          , 0.00459465531164723324          , 0.00348887594024056412          , 0.0027880892909172895           , 0.00231051525586756099          , 0.00196692336208231699          , 0.00170919154178711237          , 0.00150939133880945521          , 0.00135033436787541605          , 0.00122092334142513648          , 0.00111370320920801266          , 0.00102349548603959135          , 0.000946599134714586574         , 0.000880303375032698072         , 0.000822579953487167744         , 0.000771882676849434506         , 0.000727013233349804664         , 0.000687029202297648653         , 0.000651179625467500121         , 0.000618859010229474895         , 0.000589573920330530929         , 0.000562918327818462746         , 0.000538555168703001194         , 0.000516202360935090818         , 0.00049562207852575727          , 0.00047661243319307746          , 0.000459000957844889048         , 0.000442639453810654149         , 0.000427399881044840561         , 0.000413171053726384498         , 0.000399855963422752721         , 0.000387369595382506291         , 0.000375637135380885871         , },
+/* x = 3.8         */  {0.451971252447459716            , 0.056526379025170279            , 0.0193695217393875317           , 0.00979958379483842933          , 0.00608240982996097494          , 0.00425933113335304982          , 0.00322129876456815162          , 0.00256659369516057569          , 0.00212212283832145257          , 0.00180333110464461816          , 0.00156480514895817753          , 0.00138028108841528056          , 0.00123364383912971805          , 0.00111451633185228361          , 0.00101594330313763969          , 0.000933103149319204621         , 0.000862556022727598351         , 0.000801786433400677604         , 0.000748914909586594785         , 0.000702510499807685694         , 0.000661465478465019247         , 0.000624909573802657019         , 0.000592149975966928427         , 0.000562628560835024134         , 0.000535890855668491912         , 0.000511563167314540516         , 0.000489335483799469809         , 0.000468948524369250539         , 0.000450183813703050506         , 0.000432855990119510928         , 0.000416806784327045918         , 0.000401900261550553322         , 0.000388019029147271514         , 0.000375061189264085874         , 0.000362937871648441816         , 0.000351571222049590731         , 0.000340892751230966595         , },
+/* x = 3.9         */  {0.446413853882527473            , 0.0546374285175286006           , 0.0184192787316386427           , 0.00921211310415241348          , 0.00567216413887980845          , 0.00394968792360434456          , 0.00297495586074915406          , 0.00236314291588905311          , 0.00194938875545274464          , 0.00165355094831952184          , 0.00143276366311109315          , 0.00126232377942673945          , 0.00112711993346289984          , 0.00101744703727796252          , 0.000926815200089820444         , 0.000850734532923128769         , 0.000786007573693923507         , 0.000730299805909626573         , 0.000681869456542633537         , 0.000639392108496545179         , 0.000601843690456522246         , 0.000568420495245259436         , 0.000538483314069457345         , 0.000511517652220665649         , 0.000487104898534217565         , 0.000464901100304137465         , 0.000444621111500849005         , 0.000426026597915462668         , 0.000408916851223853627         , 0.000393121676148111317         , 0.000378495826530022975         , 0.000364914611862437561         , 0.000352270397631945884         , 0.000340469794906678715         , 0.000329431386274754547         , 0.000319083872712009649         , 0.000309364553429268794         , },
+/* x = 4.0         */  {0.44104069538121084             , 0.0528406320615595825           , 0.0175257821619930709           , 0.00866415899015389677          , 0.00529168425529288713          , 0.00366368992611272549          , 0.00274811878731322501          , 0.00217623816829221811          , 0.00179099170445613641          , 0.00151640251087751734          , 0.00131200110224233115          , 0.00115454803229434674          , 0.00102987073175447435          , 0.000928891175640959799         , 0.000845552856696466786         , 0.000775674244432919562         , 0.000716282836085790765         , 0.000665211837762114368         , 0.000620846929117477821         , 0.000581962186076562388         , 0.000547610796031469103         , 0.000517050468569506615         , 0.000489691407469325521         , 0.000465059305923183517         , 0.000442768561206930625         , 0.000422502576300677542         , 0.000403999062825046796         , 0.000387038930124162488         , 0.000371437783511844566         , 0.000357039346430119994         , 0.000343710318830362417         , 0.000331336319989740891         , 0.000319818658827436978         , 0.000309071741881152908         , 0.000299020977162883069         , 0.000289601066938093938         , 0.00028075460798381116          , },
+/* x = 4.1         */  {0.435842838806517484            , 0.0511305077322873459           , 0.01668522534086595             , 0.00815285991494737835          , 0.00493870048815492694          , 0.00339946695019915792          , 0.00253920256712554751          , 0.00200450706961839879          , 0.00164572324908716272          , 0.001390807296673234            , 0.00120154429695490224          , 0.00105606766271849994          , 0.00094108302936149403          , 0.000848097601497085756         , 0.000771458516909764375         , 0.000707270925441697479         , 0.000652771132552606622         , 0.000605947801521313533         , 0.000565304591644478795         , 0.000529706645010300959         , 0.000498278506541523156         , 0.000470334556883073395         , 0.000445330554172062008         , 0.000422829211705066195         , 0.000402475310777666294         , 0.000383977417846878154         , 0.000367094257125553455         , 0.000351624417791839704         , 0.00033739848497438246          , 0.000324272956314457646         , 0.000312125490340457753         , 0.000300851159634960417         , 0.000290359470151373016         , 0.000280571970497316888         , 0.000271420319702315114         , 0.000262844714353475036         , 0.000254792599675058541         , },
+/* x = 4.2         */  {0.430811875648124345            , 0.0495019403366245999           , 0.0158940766892138206           , 0.00767557221733230917          , 0.00461112246438672118          , 0.00315530063797652196          , 0.00234675359491238516          , 0.00184669284683134534          , 0.00151247808118958022          , 0.00127577982854109018          , 0.0011005047525955961           , 0.000966074164765453788         , 0.000860015353467587013         , 0.000774381787644282037         , 0.00070389660070451295          , 0.000644931499994424922         , 0.00059491662849398409          , 0.000551984752359972473         , 0.000514748751443015517         , 0.000482157974156412847         , 0.000453402877574094623         , 0.000427850138102401588         , 0.000404997514038757391         , 0.000384441822769806712         , 0.000365855815440858244         , 0.00034897120668146997          , 0.000333566038128245506         , 0.000319455142895155432         , 0.000306482861756647925         , 0.000294517416625145894         , 0.00028344651909594066          , 0.000273173910044604054         , 0.000263616608610993954         , 0.000254702707052011997         , 0.000246369589524654473         , 0.000238562482943268147         , 0.000231233270058849076         , },
+/* x = 4.3         */  {0.425939891689163391            , 0.0479501549624374953           , 0.01514905882268739             , 0.00722985291874837423          , 0.00430702458360903347          , 0.00292961188840469412          , 0.00216943857677333763          , 0.00170164447509912295          , 0.00139024512956812937          , 0.00117041955702991482          , 0.00100807122922877324          , 0.000883829860651547246         , 0.000785991602649378476         , 0.000707119890003898854         , 0.000642288141616783408         , 0.00058811594124253338          , 0.000542213391432279421         , 0.000502846849426080132         , 0.000468730316013008472         , 0.000438891009334928105         , 0.000412580273472240041         , 0.000389213046530338362         , 0.000368325812628327655         , 0.000349546808845792174         , 0.000332574535296662839         , 0.00031716200201576132          , 0.000303105010535220414         , 0.000290233319321598858         , 0.000278403901219419236         , 0.000267495739221623804         , 0.00025740576765986892          , 0.000248045676168729341         , 0.000239339370515001948         , 0.000231220938520255213         , 0.000223633007983275294         , 0.000216525411470356224         , 0.000209854093278413974         , },
+/* x = 4.4         */  {0.42121943421632775             , 0.0464706925355976487           , 0.0144471292845141483           , 0.00681344392267071594          , 0.00402463267677574664          , 0.00272094933953559983          , 0.00200603441270717693          , 0.00156830766615055215          , 0.00127809944195339103          , 0.00107390347842490981          , 0.000923502975796005148         , 0.000808661657800871243         , 0.000718395252994499705         , 0.000645743343385687663         , 0.000586105723675582469         , 0.000536332509491301186         , 0.00049420089672294268          , 0.000458101100998712188         , 0.000426840753623464249         , 0.000399519088749970003         , 0.000375443699793226014         , 0.000354074066869752888         , 0.000334982383219424205         , 0.000317825834296096367         , 0.000302326626005464553         , 0.000288257360363559311         , 0.000275430167667395871         , 0.000263688520829947727         , 0.000252900993474850434         , 0.000242956446022503813         , 0.000233760274120373157         , 0.000225231456622081974         , 0.000217300211832127634         , 0.00020990612113861989          , 0.000202996615138533117         , 0.000196525743351175445         , 0.000190453167598297209         , },
+/* x = 4.5         */  {0.416643481580515841            , 0.0450593872269192816           , 0.0137854627936128376           , 0.00642425749220243128          , 0.00376231176746385694          , 0.00252797881877026733          , 0.0018554189409145149           , 0.00144571663262737636          , 0.00117519477235203765          , 0.000985479399082481515         , 0.000846123560480538031         , 0.000739955359094332462         , 0.000656664080103037793         , 0.00058973394048151537          , 0.000534868872750956498         , 0.000489133419059492439         , 0.000450459939177995457         , 0.000417353494959060397         , 0.000388708420591645267         , 0.000363690558183174264         , 0.000341659470100165535         , 0.000322115748429386713         , 0.000304664516024591353         , 0.000288989631429367153         , 0.000274835126548661077         , 0.000261991629182454032         , 0.000250286283340316572         , 0.00023957516431049687          , 0.000229737499870557931         , 0.000220671217153277287         , 0.000212289474866783714         , 0.00020451793651461112          , 0.000197292606908688226         , 0.00019055810120249202          , 0.000184266249147184318         , 0.000178374961434823494         , 0.000172847302625573505         , },
+/* x = 4.6         */  {0.412205414930392648            , 0.0437123455636694637           , 0.0131614348854755228           , 0.00606036290029826437          , 0.00351855484320155097          , 0.00234947367871525838          , 0.00171656246969937615          , 0.00133298656102807699          , 0.00108075681204212751          , 0.000904459789139411534         , 0.00077531524445817799          , 0.000677150477063930015         , 0.000600285350851827033         , 0.000538619350724140672         , 0.000488139861404153967         , 0.000446110895226835153         , 0.000410608913847642184         , 0.000380245479602022873         , 0.000353995221895349882         , 0.000331085594075474346         , 0.000310924176555425852         , 0.000293049510232486769         , 0.000277097086452537983         , 0.000262775341927242128         , 0.000249848404994217214         , 0.000238123489139463245         , 0.000227441543639026506         , 0.000217670224808132956         , 0.000208698545631927277         , 0.000200432756128942732         , 0.000192793137714569518         , 0.000185711484342952059         , 0.00017912910532308675          , 0.00017299522840946273          , 0.000167265712913089267         , 0.000161902005040171494         , 0.000156870284045499397         , },
+/* x = 4.7         */  {0.407898991955183335            , 0.0424259271120731402           , 0.0125726068334599578           , 0.00571997415591531617          , 0.00329197255209695703          , 0.00218430594331668044          , 0.00158852002923273061          , 0.0012293067317372001           , 0.000994077007910870675         , 0.000830216173700955785         , 0.000710513850917270512         , 0.00061973550718796422          , 0.000548791442939080847         , 0.000491969039551191925         , 0.00044551989001982605          , 0.000406893586050972166         , 0.000374300432540885113         , 0.000346450762995041664         , 0.000322393574801132036         , 0.000301413315526177474         , 0.000282961936577138765         , 0.000266613010422007687         , 0.0002520300368564376           , 0.000238944101791901587         , 0.000227137838566335906         , 0.000216433722133472583         , 0.000206685396501200494         , 0.000197771160943383945         , 0.000189589015977691478         , 0.000182052852024744377         , 0.000175089485932351186         , 0.000168636334061447364         , 0.000162639568529294346         , 0.000157052643905139939         , 0.000151835110632825404         , 0.000146951652337142106         , 0.000142371299387369411         , },
+/* x = 4.8         */  {0.403718322485826271            , 0.0411967266080006502           , 0.0120167117473939502           , 0.00540143871749476272          , 0.00308128374723367814          , 0.00203143819542532025          , 0.00147042428131859312          , 0.00113393423001267518          , 0.000914506916788551964         , 0.000762174014206807766         , 0.000651204085511387366         , 0.000567243619449906858         , 0.000501755853992482176         , 0.000449390552165835996         , 0.000406645610360160734         , 0.000371143297023399213         , 0.00034121824569847362          , 0.000315672401982250064         , 0.000293623647954033689         , 0.000274409158883251839         , 0.000257521890356957593         , 0.000242567755793253382         , 0.000229236088551027768         , 0.000217278847476689658         , 0.000206495706498373449         , 0.000196723184312528139         , 0.000187826599054052735         , 0.000179694031337996468         , 0.000172231736934351759         , 0.000165360620441460565         , 0.000159013495523556717         , 0.000153132935199680304         , 0.000147669569641648988         , 0.000142580726842412021         , 0.000137829338481414228         , 0.00013338305272891176          , 0.000129213509867990217         , },
+/* x = 4.9         */  {0.399657845815392672            , 0.0400215574229049318           , 0.011491641754876577            , 0.00510322711259781068          , 0.00288530680788370757          , 0.00188991614286010486          , 0.00136147903066702173          , 0.00104618819670887163          , 0.00084145304894987081          , 0.000699808036859537066         , 0.00059691526830682283          , 0.000519248730971320297         , 0.000458789565450614929         , 0.000410526129116431908         , 0.000371185960736665408         , 0.000338552019432546563         , 0.00031107444198822479          , 0.000287640154559905872         , 0.000267430850884935205         , 0.000249832491001863477         , 0.000234375926341666846         , 0.000220696929498367364         , 0.000208508663010760829         , 0.000197582322914275184         , 0.000187733276127203382         , 0.000178810965235574002         , 0.000170691444498972813         , 0.00016327178444094067          , 0.000156465823808917995         , 0.00015020090675346788          , 0.000144415349747986161         , 0.000139056455479879115         , 0.000134078941255922828         , 0.000129443684766392176         , 0.00012511671514529952          , 0.000121068395316461875         , 0.000117272754749433943         , },
+/* x = 5.0         */  {0.395712309610513542            , 0.0388974362611428075           , 0.0109954361784342955           , 0.00482392338930860106          , 0.00270295167260747403          , 0.00175886180543817992          , 0.0012609532860734512           , 0.000965444571986939852         , 0.000774372158071863069         , 0.000642637968813620508         , 0.000547217440837332255         , 0.000475361925849851025         , 0.000419537729546110648         , 0.00037504962395672991          , 0.000338839284774624049         , 0.000308839225937863031         , 0.000283606900498828687         , 0.000262108071737587959         , 0.000243583551173011146         , 0.00022746443943159453          , 0.000213316613874671955         , 0.000200803416977608308         , 0.000189659993095169013         , 0.000179675269019713849         , 0.000170679064484108382         , 0.000162532716063584363         , 0.000155122152015733543         , 0.000148352705774841069         , 0.000142145181853079168         , 0.000136432836654004545         , 0.000131159036350080107         , 0.00012627542182694194          , 0.000121740457601187513         , 0.000117518274499172126         , 0.000113577739235906533         , 0.00010989170081920837          , 0.000106436375907832716         , },
+/* x = 5.1         */  {0.391876750295519059            , 0.0378215689931375905           , 0.0105262706288134446           , 0.00456221633123054775          , 0.00253321252481354884          , 0.001637467270373167            , 0.00116817582437149029          , 0.000891131289344484081         , 0.000712766938691335795         , 0.000590224646297752197         , 0.000501717815111927024         , 0.000435228191356356019         , 0.000383676650556916896         , 0.00034266369592228297          , 0.000309330708273137654         , 0.000281749409255427045         , 0.000258576972686529637         , 0.000238852307170572736         , 0.000221870998573961731         , 0.000207105919776563525         , 0.000194155324095131505         , 0.000182708011998505451         , 0.000172519406903931205         , 0.000163394778937379227         , 0.000155177259268743876         , 0.000147739131240471945         , 0.000140975404681218931         , 0.00013479900809695757          , 0.000129137145080101005         , 0.000123928500397070706         , 0.000119121074305052502         , 0.000114670486969859462         , 0.000110538638586814705         , 0.00010669264143405095          , 0.000103103961820174268         , 0.000099747725497685135         , 0.0000966021514529420077        , },
+/* x = 5.2         */  {0.38814647480016237             , 0.0367913375364809228           , 0.0100824469412194227           , 0.00431689137359003279          , 0.00237516107638167857          , 0.00152498896794945526          , 0.00108253021410415726          , 0.000822723881018583838         , 0.000656182095626729342         , 0.000542166462009002538         , 0.000460057534366372673         , 0.000398523442397409011         , 0.000350911034074964887         , 0.000313097252991668247         , 0.000282409750962910601         , 0.000257049842034964904         , 0.000235767373300301885         , 0.00021766912482203748          , 0.000202101437308705709         , 0.000188575842275128733         , 0.000176720521920120015         , 0.000166247786342706559         , 0.000156931768459193231         , 0.000148592803836819518         , 0.000141086284574013937         , 0.00013429456955441447          , 0.000128121021780227459         , 0.000122485551306854126         , 0.000117321240491942742         , 0.000112571758392304217         , 0.000108189358113959267         , 0.000104133310018340662         , 0.000100368664461027814         , 0.000096865266269811106         , 0.0000935969633958242006        , 0.0000905409666876055215        , 0.0000876773282749249626        , },
+/* x = 5.3         */  {0.384517043570234199            , 0.0358042877040871682           , 0.00966238388729729135          , 0.00408682316316756986          , 0.00222794039955309177          , 0.00142074242349694432          , 0.00100345025958077088          , 0.000759741459211302374         , 0.000604200752948992396         , 0.000498096122002137219         , 0.000421908718031168957         , 0.000364951808655125649         , 0.00032097148039223337          , 0.000286103122914680947         , 0.000257848152055298995         , 0.000234528537989948551         , 0.000214980261394168761         , 0.000198373086707297443         , 0.000184100389419357952         , 0.000171709481283587547         , 0.000160856213504688503         , 0.000151274608186982302         , 0.000142756060861322905         , 0.0001351347954574825           , 0.000128277498074666158         , 0.000122075801768719387         , 0.000116440753140987975         , 0.00011129868014737231          , 0.000106588066150496306         , 0.00010225715694981823          , 0.0000982621087857603165        , 0.0000945655404736946316        , 0.0000911353908426929792        , 0.0000879440092325308903        , 0.0000849674256291842864        , 0.0000821847605191980709        , 0.0000795777443351742287        , },
+/* x = 5.4         */  {0.380984254748136658            , 0.034858117944955925            , 0.00926460860113473214          , 0.00387096870954268451          , 0.00209075926149871515          , 0.00132409744545146003          , 0.000930415829384573369         , 0.000701743040683961649         , 0.000556441172930255256         , 0.000457677684926080682         , 0.000386971765831746757         , 0.00033424316109759388          , 0.000293612200243702895         , 0.000261455931803694852         , 0.000235437890378434539         , 0.000213992396144623485         , 0.000196035494247283338         , 0.000180795404402563164         , 0.000167709093655281738         , 0.000156356992836366326         , 0.000146420535000520255         , 0.000137653795593394672         , 0.000129864098879935455         , 0.000122898472868928473         , 0.000116634007613608358         , 0.000110970873190198294         , 0.000105827184267356017         , 0.000101135168847888976         , 0.0000968382725945579335        , 0.0000928889440071420583        , 0.0000892469216489549498        , 0.0000858778961086651809        , 0.0000827524548364109645        , 0.0000798452427550041399        , 0.0000771342890715379069        , 0.0000746004632706895921        , 0.0000722270323709530611        , },
+/* x = 5.5         */  {0.377544129437629076            , 0.0339506689090150008           , 0.00888774866259826686          , 0.00366836107950247884          , 0.0019628869198230259           , 0.00123447371272210601          , 0.00086294903649809992          , 0.000648324185091930179         , 0.000512553757992262336         , 0.000420603858854944793         , 0.000354972898161807642         , 0.000306150856630353954         , 0.000268608933094006723         , 0.000238950171716918281         , 0.000214989381626611508         , 0.000195265511700696976         , 0.000178769038568867205         , 0.000164782439482595525         , 0.00015278308576607058          , 0.000142382066807322224         , 0.000133284469729227248         , 0.000125262892766750017         , 0.000118139359136925793         , 0.00011177270206341761          , 0.000106049596228778241         , 0.000100878070613278804         , 0.0000961827420739229083        , 0.0000919012628594406498        , 0.0000879816380731971586        , 0.0000843801756098337314        , 0.0000810599020469202872        , 0.0000779893260361882294        , 0.0000751414638014355874        , 0.0000724930644208405624        , 0.0000700239888847500625        , 0.0000677167085985170288        , 0.0000655558974573310955        , },
+/* x = 5.6         */  {0.374192897973535809            , 0.0330799137729511499           , 0.00853052478592593917          , 0.00347810359045953259          , 0.00184364834077980333          , 0.001151336727726366            , 0.000800610740045276354         , 0.000599113920009434087         , 0.000472218311040944687         , 0.000386593533144029362         , 0.000325661911897645272         , 0.000280449681550680348         , 0.000245757049927028321         , 0.000218398440329712249         , 0.000196329836823151778         , 0.000178187638516827745         , 0.000163031524780243684         , 0.000150194339398670602         , 0.000139190907363441095         , 0.000129660701425391936         , 0.000121330682063156669         , 0.000113990557866651127         , 0.000107475917123488181         , 0.000101656478042324762         , 0.0000964277456702083015        , 0.0000917049840497567816        , 0.0000874187919691665213        , 0.0000835118087395441793        , 0.0000799362289457141999        , 0.000076651904769890944         , 0.0000736248807982709713        , 0.000070826251090321288         , 0.0000682312591256527075        , 0.0000658185827396870686        , 0.000063569761346080605         , 0.0000614687336068420469        , 0.0000595014615716834386        , },
+/* x = 5.7         */  {0.370926987123262128            , 0.0322439492689290224           , 0.00819174406572945565          , 0.00329936446238386013          , 0.00173241980519436387          , 0.00107419410432263176          , 0.000742997341234883914         , 0.000553771927945808607         , 0.000435141531729461083         , 0.000355389524730663653         , 0.000298810132667661108         , 0.000256933976188562325         , 0.00022486982411102287          , 0.000199629837307394648         , 0.000179301767528805503         , 0.000162612789549481299         , 0.000148686931452863817         , 0.000136903796532739753         , 0.000126812931681984088         , 0.000118080089014222675         , 0.000110452457375737857         , 0.000103735552187191171         , 0.0000977774812787673328        , 0.0000924580000064260711        , 0.0000876807493711186472        , 0.0000833676545362755216        , 0.0000794548178841034064        , 0.0000758894640689655943        , 0.0000726276373966521861        , 0.0000696324450998159512        , 0.0000668727020541989786        , 0.0000643218743714793799        , 0.0000619572480642042252        , 0.0000597592690089475328        , 0.0000577110145726501692        , 0.0000557977673720692024        , 0.0000540066689426000531        , },
+/* x = 5.8         */  {0.367743008152541549            , 0.0314409873626867012           , 0.00787029373643830077          , 0.00313137189110480079          , 0.00162862487003084403          , 0.00100259216249153289          , 0.000689737848450952331         , 0.000511985972800565996         , 0.000401054728157989241         , 0.000326756520112931237         , 0.00027420854627326541          , 0.000235415924686444729         , 0.000205776855380380519         , 0.000182488503373594674         , 0.000163761624630279436         , 0.000148407962836404215         , 0.0001356113881510962           , 0.00012479491927675516          , 0.000115540295630225503         , 0.000107537602839873178         , 0.000100552738394762            , 0.0000944058214490885556        , 0.0000889565152530166501        , 0.0000840938311215460781        , 0.0000797289066669699073        , 0.0000757898001125612681        , 0.0000722176776176560281        , 0.000068963980031030581         , 0.0000659882893388678628        , 0.0000632567023223839166        , 0.0000607405768659341667        , 0.0000584155554694973637        , 0.0000562607973450447557        , 0.0000542583691424219287        , 0.0000523927575143495237        , 0.0000506504761305433094        , 0.000049019746542479329         , },
+/* x = 5.9         */  {0.364637745692975407            , 0.0306693475317124608           , 0.00756513540477703503          , 0.00297340950890820389          , 0.00153173065623636085          , 0.00093611280401346427          , 0.000640491188591503198         , 0.000473469545162811216         , 0.000369711725311338899         , 0.000300479195891897631         , 0.000251666093489634386         , 0.000215723995297792617         , 0.000188322633311937369         , 0.000166832289324581779         , 0.000149578558728418542         , 0.000135451981725065125         , 0.000123692085992258444         , 0.000113762204997979613         , 0.000105273928488213324         , 0.0000979398758725020139        , 0.0000915432491745092634        , 0.0000859176607954669972        , 0.0000809334402912467497        , 0.0000764881351133673307        , 0.0000724997908101606196        , 0.0000689021127906356889        , 0.0000656409265723771949        , 0.000062671549963357805         , 0.000059956816035280512         , 0.0000574655673934423687        , 0.0000551714963936212305        , 0.0000530522424781801551        , 0.0000510886828268627577        , 0.0000492643699133652558        , 0.0000475650818158561785        , 0.0000459784598750599221        , 0.0000444937146068546813        , },
+/* x = 6.0         */  {0.361608147353658497            , 0.0299274495980826782           , 0.00727529971813180635          , 0.00282481220116605611          , 0.00144124443595800286          , 0.000874370645579638944         , 0.00059494374372580583          , 0.000437959707647426447         , 0.000340886953170419857         , 0.000276360502269231596         , 0.000231008113870753492         , 0.000197701517884955409         , 0.000172365227890634665         , 0.00015253154338329235          , 0.000136633291223544586         , 0.000123634439068036215         , 0.000112826286203563688         , 0.000103709605670936939         , 0.0000959236684847028695        , 0.0000892019631056373123        , 0.0000833436987044580632        , 0.0000781949558513685139        , 0.0000736359104118739728        , 0.0000695719826556641959        , 0.0000659275840124882321        , 0.0000626416199954637458        , 0.0000596642035918577179        , 0.0000569542178085083853        , 0.0000544774835668002305        , 0.000052205365553437893         , 0.0000501136992488731054        , 0.0000481819564595750838        , 0.0000463925900239059878        , 0.0000447305145739608987        , 0.0000431826916490851491        , 0.0000417377955933764056        , 0.0000403859425386138644        , },
+/* x = 6.1         */  {0.358651314023545994            , 0.0292138070741032944           , 0.00699988143465771154          , 0.00268496225031170125          , 0.0013567104944832874           , 0.00081701038777572001          , 0.00055280709393828833          , 0.0004052151230911431           , 0.00031437369892470033          , 0.000254220095265090422         , 0.000212074925454993077         , 0.000181205386481069847         , 0.000157775095867115083         , 0.000139468006327219231         , 0.000124817086176157111         , 0.000112854736034651946         , 0.000102920417835115397         , 0.000094549677792869315         , 0.0000874074592839855371        , 0.0000812465798378411804        , 0.0000758810569008199642        , 0.0000711684929055586935        , 0.0000669981537256738808        , 0.0000632827211614362427        , 0.0000599524733689918798        , 0.0000569511045569507899        , 0.0000542326731900563782        , 0.0000517593409497693091        , 0.000049499674815697502         , 0.0000474273561482750116        , 0.0000455201879723297715        , 0.0000437593235103535729        , 0.0000421286607923338214        , 0.0000406143632799914685        , 0.0000392044770716086817        , 0.0000378886228241964397        , 0.0000366577459862413728        , },
+/* x = 6.2         */  {0.355764490815236588            , 0.0285270209821726495           , 0.00673803486372759791          , 0.00255328578083405284          , 0.00127770724431795448          , 0.000763704400206923864         , 0.000513815948869389366         , 0.000375014249919865113         , 0.000289982509072761478         , 0.000233892904672678288         , 0.000194720528426222024         , 0.000166104875859268399         , 0.00014443399261834184          , 0.000127533804771194487         , 0.000114030813913428772         , 0.000103021207031750003         , 0.0000938892565877835269        , 0.0000862028089597679051        , 0.0000796506191367856705        , 0.0000740034090133335036        , 0.000069088896389054216         , 0.000064775331907700685         , 0.0000609603738496286365        , 0.0000575634021723834097        , 0.000054520102081152088         , 0.000051778577877477254         , 0.0000492965189883552894        , 0.0000470391024263787076        , 0.0000449774191254108512        , 0.0000430872785365067866        , 0.0000413482901095295201        , 0.0000397431500310940614        , 0.0000382570819083218954        , 0.0000368773941729991           , 0.0000355931268786455916        , 0.0000343947676073235048        , 0.000033274021276147942         , },
+/* x = 6.3         */  {0.352945058604552237            , 0.0278657741132955024           , 0.0064889696478458413           , 0.00242924948112700791          , 0.00120384457070318639          , 0.000714150504706331009         , 0.000477726251963550339         , 0.000347153690356924411         , 0.000267539728438488837         , 0.000215227825906778047         , 0.000178811421841260006         , 0.000152280562034726452         , 0.000132233980140460443         , 0.000116630533847825733         , 0.000104184098163681585         , 0.0000940503229934808841        , 0.0000856551774419841733        , 0.0000785965141711564201        , 0.0000725851761080609427        , 0.0000674084713467736552        , 0.0000629067940869258513        , 0.0000589582365504010379        , 0.0000554682059236776036        , 0.0000523622610743321697        , 0.0000495810709098972343        , 0.0000470768013933379092        , 0.0000448104836532798843        , 0.0000427500679837243685        , 0.0000408689652441217018        , 0.0000391449398322246174        , 0.0000375592597676464761        , 0.000036096037206153033         , 0.0000347417116633916077        , 0.0000334846413564720377        , 0.0000323147772900571189        , 0.000031223401268653522         , 0.0000302029137337693044        , },
+/* x = 6.4         */  {0.350190526123711584            , 0.0272288256914482539           , 0.00625194685946647086          , 0.00231235758001237655          , 0.00113476138960255479          , 0.000668069940097582706         , 0.000444313442804646505         , 0.000321446678381755474         , 0.000246886164261906063         , 0.000198086524943630357         , 0.000164225523496487679         , 0.000139623337519711466         , 0.000121076522639017907         , 0.000106668421312618217         , 0.0000951945392395904179        , 0.0000858659659979834077        , 0.0000781474744346524329        , 0.0000716647955601246708        , 0.0000661492633930022641        , 0.0000614035525286835368        , 0.0000572797871441190185        , 0.0000536651562292925983        , 0.0000504722222410661897        , 0.0000476322443495346905        , 0.000045090485254234059         , 0.0000428028518971511245        , 0.0000407334510609978787        , 0.0000388527838327307089        , 0.0000371363935645511322        , 0.000035563840625428128         , 0.0000341179159161191446        , 0.0000327840310710416659        , 0.0000315497409610695666        , 0.00003040436635121776          , 0.00002933869315294183          , 0.0000283447308108634195        , 0.0000274155167497943971        , },
+/* x = 6.5         */  {0.347498522569044835            , 0.0266150064135436356           , 0.00602627538828102572          , 0.00220214905757135047          , 0.00107012340077091391          , 0.000625205493381588674         , 0.000413370864170761767         , 0.000297721695480179271         , 0.000227875864555778201         , 0.000182342346497742844         , 0.000150851183883041661         , 0.000128033512966638648         , 0.000110871661942701267         , 0.0000975655658146122477        , 0.0000869870064628429416        , 0.0000783987688034517583        , 0.0000713017415330332354        , 0.0000653475598163480246        , 0.0000602865692765083395        , 0.0000559356823271720089        , 0.0000521578782909335307        , 0.000048848755150054024         , 0.0000459274829595961988        , 0.0000433305800157120384        , 0.0000410075436739148737        , 0.0000389177266957120281        , 0.0000370280668079800759        , 0.0000353114113727208905        , 0.0000337452640401597333        , 0.0000323108351778101806        , 0.000030992314039479093         , 0.0000297763048792809403        , 0.0000286513857243943685        , 0.0000276077599313893465        , 0.0000266369786481164438        , 0.0000257317179801893979        , 0.0000248855987396826769        , },
+/* x = 6.6         */  {0.344866790687104269            , 0.0260232138370876042           , 0.00581130859649355448          , 0.00209819507158483932          , 0.00100962101996560468          , 0.00058531978349564763          , 0.000384708301583653827         , 0.000275821203260576238         , 0.00021037500086066289          , 0.000167879316445710281         , 0.000138586285978833479         , 0.000117419997576334064         , 0.000101537265659681065         , 0.0000892472427230403942        , 0.0000794929936344088808        , 0.0000715855134734821309        , 0.0000650593091007615637        , 0.0000595900880891847109        , 0.0000549458367858766261        , 0.0000509566608734501325        , 0.0000474955860997471025        , 0.0000444659842834649837        , 0.0000417931277758409758        , 0.0000394183873003750374        , 0.0000372951640583131319        , 0.0000353859849476856095        , 0.0000336603935442479295        , 0.0000320933954770641551        , 0.0000306642964917147812        , 0.0000293558229151400841        , 0.0000281534480640432989        , 0.0000270448707847536225        , 0.0000260196077190594546        , 0.0000250686715296190253        , 0.0000241843147679228244        , 0.0000233598243514228381        , 0.0000225893554093278856        , },
+/* x = 6.7         */  {0.342293180305705876            , 0.0254524080897785369           , 0.00560644122139269624          , 0.00200009658240970149          , 0.000952967475686151438         , 0.000548193684962826997         , 0.000358150644172956401         , 0.000255600482953354629         , 0.000194260846390062556         , 0.000154591230295341961         , 0.000127337423353583289         , 0.000107699551324758797         , 0.0000929983416265650108        , 0.0000816452714918391108        , 0.0000726500319109085678        , 0.0000653685837867811404        , 0.0000593667309490100125        , 0.000054342553630138002         , 0.0000500804085359215587        , 0.0000464226278474340661        , 0.0000432515360728692084        , 0.0000404776922622504747        , 0.0000380320048211409873        , 0.0000358603219610345704        , 0.0000339196439921748973        , 0.0000321754218614245359        , 0.0000305995979297888168        , 0.0000291691632541288138        , 0.0000278650803211644459        , 0.0000266714683308128532        , 0.0000255749797645132206        , 0.0000245643181314794978        , 0.0000236298611649050133        , 0.000022763363660100349         , 0.0000219577210860628507        , 0.0000212067800197653366        , 0.0000205051849798401281        , },
+/* x = 6.8         */  {0.339775642278912               , 0.0249016078772843527           , 0.00541110650617707758          , 0.00190748216051769006          , 0.00089989705704257554          , 0.000513624879818998293         , 0.000333536656629718981         , 0.000236926572672172329         , 0.000179420841341013372         , 0.000142380820217090018         , 0.000117019149726463769         , 0.0000987961026772747113        , 0.000085186412774449653         , 0.0000746974390820910476        , 0.0000664011549537981769        , 0.0000596954666040694155        , 0.0000541753174177462355        , 0.0000495595828632957863        , 0.000045647812674305106         , 0.0000422936706694474885        , 0.0000393880888429153656        , 0.0000368482716702005081        , 0.0000346103333804278509        , 0.0000326242539907683978        , 0.00003085035218539056          , 0.00002925677273818635          , 0.0000278176663090221156        , 0.0000265118504803947828        , 0.0000253218109247727924        , 0.0000242329466814151535        , 0.0000232329931146096307        , 0.0000223115758931164995        , 0.0000214598627515835579        , 0.0000206702890447153078        , 0.0000199363395699354812        , 0.0000192523737118194944        , 0.0000186134842422338988        , },
+/* x = 6.9         */  {0.337312222817248617            , 0.0243698867672608773           , 0.00522477354150247254          , 0.0018200059622075255           , 0.000850163500464070127         , 0.000481426527183197129         , 0.000310717852896134613         , 0.000219677294101539073         , 0.000165751737860476473         , 0.000131158993810115166         , 0.000107553293720556332         , 0.0000906401260205197257        , 0.0000780389470596697776        , 0.0000683469744524082375        , 0.0000606944116787327283        , 0.0000545182977996187218        , 0.0000494407103434543198        , 0.000045199855962716072         , 0.0000416093862062718665        , 0.0000385334681582281376        , 0.0000358710021103178699        , 0.0000335453374981537611        , 0.0000314973973458044177        , 0.0000296809747472962344        , 0.0000280594481213342215        , 0.000026603444122961311         , 0.0000252891464653997173        , 0.000024097053160701033         , 0.0000230110503471047866        , 0.0000220177130968450777        , 0.0000211057712800977408        , 0.000020265697031699379         , 0.0000194893828948224722        , 0.0000187698883416630384        , 0.000018101238394413972         , 0.0000174782623308734278        , 0.00001689646351039874          , },
+/* x = 7.0         */  {0.334901058176559283            , 0.0238563697293574833           , 0.00504694480160842384          , 0.00173734586017768593          , 0.000803538503977806093         , 0.000451426040731838473         , 0.000289557463035407643         , 0.000203740360993270225         , 0.000153158817810324083         , 0.000120844138372928086         , 0.0000988683331093655305        , 0.0000831680735530114238        , 0.0000714988375831961814        , 0.0000625420695732420234        , 0.000055482422351644173         , 0.0000497934487602260579        , 0.000045122496143749399         , 0.0000412257433706581399        , 0.0000379299323156084776        , 0.0000351089664373569618        , 0.0000326691232501718072        , 0.000030539434835894849         , 0.0000286652665992115929        , 0.000027003930815000391         , 0.0000255216273393215835        , 0.0000241912695765886703        , 0.0000229909130608218555        , 0.0000219026019049315809        , 0.0000209115099440514815        , 0.0000200052929468870169        , 0.0000191735941651298419        , 0.0000184076627513145821        , 0.0000177000562698787475        , 0.000017044406570543027         , 0.0000164352339051333286        , 0.0000158677981356916759        , 0.0000153379787199709128        , },
+/* x = 7.1         */  {0.332540369680844635            , 0.0233602299125055444           , 0.00487715386015850205          , 0.00165920171672722577          , 0.000759810358720047615         , 0.000423463965155952413         , 0.00026992948545419523          , 0.000189012562509762938         , 0.000141555177069052099         , 0.000111361484993519818         , 0.000090898823352885371         , 0.000076321856841175248         , 0.0000655139284564173545        , 0.0000572354428270795487        , 0.0000507219741595241933        , 0.0000454811498141054462        , 0.0000411838535895327157        , 0.0000376029750132869963        , 0.0000345774086055732816        , 0.0000319900841648103626        , 0.0000297541098001197093        , 0.0000278037731365495643        , 0.0000260885437750511968        , 0.0000245689821557323653        , 0.0000232138900037687957        , 0.0000219982878111807548        , 0.0000209019545848108608        , 0.0000199083570231740388        , 0.0000190038530287794269        , 0.000018177091505248103         , 0.000017418554615755902         , 0.0000167202048095215319        , 0.0000160752098404191717        , 0.0000154777265043198513        , 0.0000149227290509525189        , 0.0000144058719190013754        , 0.0000139233790833234777        , },
+/* x = 7.2         */  {0.330228459056234436            , 0.0228806856422123442           , 0.00471496327210141343          , 0.00158529378834238804          , 0.000718782688195835896         , 0.000397392943429572479         , 0.000251717817315876243         , 0.00017539901505067443          , 0.000130861070651627575         , 0.000102642527270902042         , 0.0000835848756785041275        , 0.0000700483736716602299        , 0.0000600365823660767999        , 0.0000523839410260583771        , 0.0000463736527310345009        , 0.0000415451472793973027        , 0.0000375912331447664593        , 0.0000343003392639315131        , 0.0000315226434625641383        , 0.0000291494444262634548        , 0.0000271001752949719006        , 0.0000253139846331367055        , 0.0000237441340866804838        , 0.0000223541823280515557        , 0.0000211153306278988715        , 0.000020004541138219815         , 0.0000190031798383702219        , 0.0000180960224345098883        , 0.0000172705156612058671        , 0.0000165162211327816013        , 0.0000158243915595441047        , 0.0000151876442191327095        , 0.0000145997067658806481        , 0.0000140552174587196359        , 0.0000135495667609400166        , 0.0000130787707033459568        , 0.0000126393688583946921        , },
+/* x = 7.3         */  {0.327963704054900268            , 0.0224169976218977002           , 0.00455996260893830524          , 0.00151536125133545767          , 0.00068027328658591503          , 0.000373076767402698016         , 0.000234815456591495475         , 0.000162812476746273763         , 0.000121003313424675493         , 0.0000946244899332629555        , 0.0000768716803793254738        , 0.0000642990762172596378        , 0.0000550232861508991391        , 0.000047948176614974948         , 0.0000424015063979780382        , 0.0000379523911196930732        , 0.000034314065035386372         , 0.0000312894089708154822        , 0.000028739077998951893         , 0.0000265621308744777947        , 0.0000246838581445746409        , 0.0000230479047077887697        , 0.0000216110361124022507        , 0.0000203395787578258249        , 0.0000192069470153403788        , 0.0000181918923669749537        , 0.0000172772421590327672        , 0.0000164489766599241388        , 0.000015695543911094753         , 0.0000150073443656545675        , 0.0000143763385191626881        , 0.0000137957448270602558        , 0.0000132598047199282107        , 0.0000127635980548965383        , 0.0000123028968824810842        , 0.0000118740486094075735        , 0.000011473881922883115         , },
+/* x = 7.4         */  {0.325744554349251862            , 0.0219684663235217763           , 0.00441176663577268624          , 0.00144916083903607153          , 0.000644113048116414065         , 0.000350389504859334732         , 0.000219123769751561452         , 0.000151172719300049076         , 0.000111914731646700242         , 0.0000872498430313737539        , 0.0000707090713828735654        , 0.0000590295768858629945        , 0.0000504342910300862377        , 0.0000438921969339583369        , 0.0000387727402761690905        , 0.0000346727504648196668        , 0.0000313244934648538592        , 0.0000285442921088246486        , 0.000026202531262114199         , 0.0000242054659168008653        , 0.0000224838114611933237        , 0.0000209853722148211971        , 0.0000196701516289012783        , 0.0000185070312277692544        , 0.0000174714666605123246        , 0.0000165438584618602262        , 0.0000157083797584661473        , 0.00001495211932899549          , 0.0000142644460787283375        , 0.0000136365314431042352        , 0.0000130609860819984675        , 0.0000125315803967793217        , 0.0000120430272883462641        , 0.0000115908116630361226        , 0.0000111710554252599768        , 0.0000107804096765787732        , 0.0000104159679667243474        , },
+/* x = 7.5         */  {0.32356952767817865             , 0.0215344295538687211           , 0.00427001361943055531          , 0.00138646558180032953          , 0.000610144980163631543         , 0.00032921469675499002          , 0.000204551819610470443         , 0.000140405952319218811         , 0.000103533660976029906         , 0.0000804658577629783211        , 0.0000650511284899169679        , 0.0000541992885426948495        , 0.0000462332844222765304        , 0.0000401831826939386451        , 0.0000354574375059006556        , 0.0000316787545015523619        , 0.0000285971346266859757        , 0.000026041404835520241         , 0.0000238909866063583235        , 0.0000220588089524949591        , 0.0000204806119332979882        , 0.0000191080479411589288        , 0.0000179041127548000236        , 0.0000168400469212111653        , 0.0000158931890099394124        , 0.000015045459422613175         , 0.0000142822706936958894        , 0.0000135917317745365705        , 0.0000129640584967785195        , 0.0000123911309445694686        , 0.0000118661570387843374        , 0.0000113834139478674001        , 0.0000109380472378541748        , 0.0000105259133541791852        , 0.0000101434549721447886        , 9.78760152867712182e-6          , 9.4556892258828044e-6           , },
+/* x = 7.6         */  {0.321437206228409496            , 0.0211142601838795319           , 0.00413436375777618323          , 0.00132706364180528325          , 0.000578223293368182374         , 0.000309444618873225702         , 0.000191015748300320528         , 0.000130444295688391853         , 0.0000958034869661359935        , 0.0000742242003278750785        , 0.000059855813999277355         , 0.0000497710960884351158        , 0.0000423870905653550637        , 0.000036791173071925388         , 0.000032428305230353604         , 0.0000289453564631344618        , 0.0000261088563760893171        , 0.0000237592649322589979        , 0.0000217843973150298837        , 0.0000201033728431246711        , 0.0000186565860158718077        , 0.0000173992495532982514        , 0.0000162971248257377708        , 0.0000153236305077361177        , 0.0000144578421330912391        , 0.0000136830809921618436        , 0.0000129859011289239032        , 0.0000123553504205497482        , 0.0000117824236637911483        , 0.000011259652328650313         , 0.0000107807930230103798        , 0.0000103405882212514783        , 9.93458055909423944e-6          , 9.55896729608650448e-6          , 9.21048522349902003e-6          , 8.88631888031721624e-6          , 8.58402678038892484e-6          , },
+/* x = 7.7         */  {0.319346233235276195            , 0.020707364029375935            , 0.00400449772111954596          , 0.00127075723524096966          , 0.000548212562584414971         , 0.00029097960262161933          , 0.000178438210776039972         , 0.000121225295922189778         , 0.0000886722244120811436        , 0.0000684805605271806742        , 0.0000550846407227036203        , 0.0000457110566422064265        , 0.0000388653973950617371        , 0.0000336888150642692448        , 0.0000296604431070436722        , 0.0000264497186504850282        , 0.000023838577615470053         , 0.0000216783037937477073        , 0.0000198645097334008244        , 0.000018322056964222951         , 0.0000169956518647985734        , 0.0000158438015305158735        , 0.0000148348235665834741        , 0.0000139441478967181349        , 0.0000131524524843477455        , 0.00001244434992508068          , 0.0000118074456683323131        , 0.0000112316517879750347        , 0.0000107086795747941463        , 0.0000102316592776928103        , 9.79485159071939942e-6          , 9.39342624331729264e-6          , 9.02329028845405055e-6          , 8.68095362744910571e-6          , 8.3634227371618847e-6           , 8.06811597255668741e-6          , 7.79279553017712652e-6          , },
+/* x = 7.8         */  {0.317295309788287817            , 0.0203131778723915404           , 0.0038801152973201817           , 0.00121736163510391806          , 0.000519986952996643573         , 0.000273727410127564452         , 0.000166747854642527068         , 0.000112691482780324691         , 0.000082092132225966901         , 0.0000631943121065160646        , 0.0000507023686566678538        , 0.0000419881258211691167        , 0.0000356405073658399344        , 0.0000308511349465520289        , 0.0000271311323446870559        , 0.0000241710166035985841        , 0.0000217670856238313718        , 0.0000197806952952979846        , 0.0000181147023304899201        , 0.0000166992953364320728        , 0.0000154831755859656493        , 0.0000144278987208208277        , 0.0000135041452574044156        , 0.0000126892024104751277        , 0.000011965226558496429         , 0.000011318020665803738         , 0.0000107361586523207646        , 0.0000102103480508470396        , 9.73295921902567103e-6          , 9.2976728528638808e-6           , 8.89921277815270889e-6          , 8.53314105689285472e-6          , 8.19569920541430377e-6          , 7.88368393411173311e-6          , 7.5943490131858596e-6           , 7.32532711089984639e-6          , 7.07456704449374265e-6          , },
+/* x = 7.9         */  {0.315283191827960479            , 0.0199311676131329994           , 0.00376093413284429809          , 0.00116670424833939254          , 0.000493429506197256923         , 0.000257602659197229363         , 0.000155878842450027507         , 0.000104789962746282862         , 0.0000760193608060224402        , 0.000058328202104005893         , 0.0000466767278175331387        , 0.0000385739078296903506        , 0.0000326871101027714993        , 0.0000282553298803923486        , 0.0000248196434374370277        , 0.0000220902607105433815        , 0.0000198768697194782564        , 0.000018050200017955322         , 0.0000165198392512245504        , 0.0000152209184706468349        , 0.0000141058404997555814        , 0.0000131389822804361052        , 0.0000122932087088395032        , 0.0000115475222429550171        , 0.0000108854433518859133        , 0.0000102938723913494541        , 9.76227541137555607e-6          , 9.28209217365924667e-6          , 8.84629930963102485e-6          , 8.44908355632152163e-6          , 8.08559426353679759e-6          , 7.75175377320609357e-6          , 7.44411058562629877e-6          , 7.15972453206462313e-6          , 6.89607615121780855e-6          , 6.65099455537597567e-6          , 6.42259955522822141e-6          , },
+/* x = 8.0         */  {0.313308687321307169            , 0.0195608265433377911           , 0.00364668856263192884          , 0.00111862376157857077          , 0.000468431481446717723         , 0.000242526294069871729         , 0.000145770412929129824         , 0.000097472046261010992         , 0.000070413629125790815         , 0.0000538480667022457511        , 0.0000429781649650098395        , 0.0000354424272726684244        , 0.0000299820749605538701        , 0.0000258805778819584321        , 0.0000227070609318978642        , 0.000020190133695157889         , 0.0000181519697904614199        , 0.0000164720234489196887        , 0.0000150661370506048291        , 0.0000138740276856166773        , 0.0000128515282397836611        , 0.0000119656268705386417        , 0.0000111912079706656096        , 0.000010508858173590037         , 9.90335664101374363e-6          , 9.36261546919759994e-6          , 8.87692256416035988e-6          , 8.43839174987420219e-6          , 8.04055739628558008e-6          , 7.67807148036038913e-6          , 7.34647433992194497e-6          , 7.04201917704542529e-6          , 6.76153626570937214e-6          , 6.5023268355373344e-6           , 6.26207937990559786e-6          , 6.03880308193590085e-6          , 5.83077443218357009e-6          , },
+/* x = 8.1         */  {0.31137065360428081             , 0.0192016737324816015           , 0.00353712852218308258          , 0.00107296935017509545          , 0.000444891747725111201         , 0.000228425098237477417         , 0.000136366477934159563         , 0.000090692905868222695         , 0.0000652379290089181336        , 0.0000497225713007865192        , 0.000039579612138029457         , 0.0000325699207913427121        , 0.0000275042617359268961        , 0.0000237078645258830705        , 0.0000207761237111096446        , 0.0000184548425644020391        , 0.0000165778383591108983        , 0.0000150326868994933939        , 0.0000137410434199630943        , 0.0000126468807691214708        , 0.0000117092106121525124        , 0.0000108974380876164412        , 0.0000101883147955950808        , 9.56389060017975152e-6          , 9.0101061808383741e-6           , 8.51580646803788085e-6          , 8.07203653031267054e-6          , 7.67153074245091837e-6          , 7.30833658987245985e-6          , 6.97753379900392286e-6          , 6.67502197915832024e-6          , 6.3973581882586959e-6           , 6.14163134453278893e-6          , 5.90536415529411233e-6          , 5.686435822582646e-6            , 5.48302059748987119e-6          , 5.29353853968606131e-6          , },
+/* x = 8.2         */  {0.309467994880286342            , 0.0188532525189215975           , 0.00343201853578003965          , 0.00102959994566634487          , 0.000422716222542211694         , 0.000215231245909009934         , 0.000127615252135790667         , 0.000084411262670313192         , 0.0000604582542733265581        , 0.000045922972724049339         , 0.0000364562751088289704        , 0.0000299346467873942714        , 0.000025234347935239385         , 0.0000217198249029781888        , 0.0000190110794151383397        , 0.000016869983723589605         , 0.000015141214967020453         , 0.0000137199099963129647        , 0.0000125331268230982583        , 0.0000115287879562495872        , 0.0000106688512391214373        , 9.92495919706320752e-6          , 9.27558996960826803e-6          , 8.70414504025791059e-6          , 8.19763700731582135e-6          , 7.74577093819103161e-6          , 7.34028950460977346e-6          , 6.97449840074241863e-6          , 6.64291719931040835e-6          , 6.34101892613115538e-6          , 6.06503333351194143e-6          , 5.81179654707842072e-6          , 5.57863490815842547e-6          , 5.36327433281434926e-6          , 5.1637689223426264e-6           , 4.97844424814017646e-6          , 4.80585192962257322e-6          , },
+/* x = 8.3         */  {0.307599659864639378            , 0.0185151290986464714           , 0.00333113677523081098          , 0.000988383557171451981         , 0.000401817353800735653         , 0.000202881888981847522         , 0.000119468912752552453         , 0.0000785890987153752932        , 0.0000560433526278721311        , 0.0000424229016605948318        , 0.0000335854400267078183        , 0.0000275167116537898894        , 0.0000231546711403141828        , 0.0000199005994819218403        , 0.0000173975517412010644        , 0.0000154224200835469184        , 0.000013830011776024244         , 0.0000125225037048703634        , 0.0000114319760579825721        , 0.0000105100172914098281        , 9.72131609982116111e-6          , 9.03958632438045692e-6          , 8.4449027012293751e-6           , 7.92191532815481076e-6          , 7.4586261033327762e-6           , 7.04553325032253091e-6          , 6.67502220834319613e-6          , 6.34092469483357674e-6          , 6.03819464505389758e-6          , 5.76266672651326153e-6          , 5.51087408170665116e-6          , 5.27990914916588554e-6          , 5.06731622225896194e-6          , 4.87100767101689792e-6          , 4.68919800302289998e-6          , 4.52035151208602877e-6          , 4.36314037651542298e-6          , },
+/* x = 8.4         */  {0.305764639565554556            , 0.0181868912048437922           , 0.00323427418394955525          , 0.00094919664259338857          , 0.000382113641308028078         , 0.00019131877664246455          , 0.00011188328683858701          , 0.0000731913931382608846        , 0.0000519644983866110116        , 0.0000391981635948535074        , 0.0000309462966740100219        , 0.000025297911069962035         , 0.0000212490851446594364        , 0.0000182357026450974785        , 0.0000159224194784990266        , 0.0000141001690891442558        , 0.0000126332093800371224        , 0.0000114302729382367123        , 0.0000104281088487759916        , 9.58170852534901283e-6          , 8.85829216129543021e-6          , 8.23349133537287891e-6          , 7.68885733584437621e-6          , 7.2101938056040867e-6           , 6.78641575503236917e-6          , 6.40875284629391765e-6          , 6.07018279655604329e-6          , 5.76502166896559652e-6          , 5.48862307227735331e-6          , 5.23715422267624201e-6          , 5.00742708089583368e-6          , 4.79676950927366557e-6          , 4.60292588722575346e-6          , 4.42397967207295847e-6          , 4.25829249107380622e-6          , 4.10445581578835455e-6          , 3.9612523060788631e-6           , },
+/* x = 8.5         */  {0.303961965192900388            , 0.0178681468719935143           , 0.00314123366158646463          , 0.000911923525818922294         , 0.000363529194807165405         , 0.000180487904956108498         , 0.00010481756385332643          , 0.0000681858800636823184        , 0.0000481952842320347413        , 0.0000362265566431733192        , 0.0000285197768946852289        , 0.0000232615850457497431        , 0.0000195028286495058774        , 0.000016711902778058986         , 0.0000145737062351146145        , 0.0000128923006945693909        , 0.0000115407619130004085        , 0.0000104339278893158416        , 9.51288865384766359e-6          , 8.73579477539525756e-6          , 8.07221336645711002e-6          , 7.49955170671160802e-6          , 7.00072672811499827e-6          , 6.56260786791357341e-6          , 6.17495298713492798e-6          , 5.82966631523337039e-6          , 5.52027135683868916e-6          , 5.24153017069449123e-6          , 4.98916413985604962e-6          , 4.7596462918323914e-6           , 4.55004483573334813e-6          , 4.35790388053470951e-6          , 4.18115149782603086e-6          , 4.01802813812046069e-6          , 3.86703036726039366e-6          , 3.72686625472488164e-6          , 3.5964197102836719e-6           , },
+/* x = 8.6         */  {0.302190706186563224            , 0.0175585232786567235           , 0.00305182930478503439          , 0.000876455856410325163         , 0.000345993325651435873         , 0.000170339194022985101         , 0.000098234031429375406         , 0.000063542826448505881         , 0.0000447114304104656448        , 0.0000334877048436242347        , 0.000026288406881469845         , 0.0000213924855141446291        , 0.0000179024054161481014        , 0.000015317112891635082         , 0.0000133404799073586098        , 0.0000117888443980128231        , 0.0000105435106203964182        , 9.5250033026455043e-6           , 8.67844894912869335e-6          , 7.96493124710363541e-6          , 7.35619331217806141e-6          , 6.83128675184426702e-6          , 6.37439166637932308e-6          , 5.97336228601688452e-6          , 5.61873452181479345e-6          , 5.30303476170614849e-6          , 5.02028948717642139e-6          , 4.7656714623704191e-6           , 4.5352405094647631e-6           , 4.32575089371583557e-6          , 4.13450634079390545e-6          , 3.95924960004936671e-6          , 3.79807739160063823e-6          , 3.64937423177106744e-6          , 3.51176045703967404e-6          , 3.38405103884641766e-6          , 3.26522267968119355e-6          , },
+/* x = 8.7         */  {0.300449968356824519            , 0.017257665663553844            , 0.00296588569998125854          , 0.000842692108558543636         , 0.00032944016947828575          , 0.000160826190477984962         , 0.0000920978324293219062        , 0.0000592348281950316879        , 0.000041490609881485167         , 0.0000309629055745755419        , 0.0000242361721223736715        , 0.0000196766553782881431        , 0.0000164354748685628666        , 0.0000140402908463470261        , 0.0000122127610266515111        , 0.0000107807045278885294        , 9.63310513660408039e-6          , 8.69578497243110583e-6          , 7.91762431307214326e-6          , 7.26243037908252236e-6          , 6.70396401129798624e-6          , 6.22279962503356463e-6          , 5.80428579820746365e-6          , 5.43718677768404902e-6          , 5.11275675652395933e-6          , 4.82409598172647102e-6          , 4.56569448738026496e-6          , 4.33310326686900181e-6          , 4.12269360288285563e-6          , 3.93147841245341145e-6          , 3.75697789351252091e-6          , 3.59711727107071059e-6          , 3.45014810861042272e-6          , 3.31458713057724514e-6          , 3.18916820465758695e-6          , 3.07280431803103954e-6          , 2.96455721796381586e-6          , },
+/* x = 8.8         */  {0.29873889212967622             , 0.0169652363099193604           , 0.00288323726446946617          , 0.000810537116321128083         , 0.000313808337451842044         , 0.000151905793293812602         , 0.0000863767415418444331        , 0.0000552366230084375585        , 0.0000385122880699481123        , 0.0000286349898916841653        , 0.0000223483939117342352        , 0.0000181013180142580874        , 0.0000150907522291170119        , 0.0000128713483313891305        , 0.0000111814391961380639        , 9.85958304502995748e-6          , 8.80193177843477733e-6          , 7.93924281777676428e-6          , 7.22388770038125848e-6          , 6.62220283060397518e-6          , 6.10982018739081997e-6          , 5.66872457883789875e-6          , 5.28534555650869577e-6          , 4.94928834928492664e-6          , 4.65247030232471315e-6          , 4.38852100672922407e-6          , 4.15235774134737654e-6          , 3.93987984067808839e-6          , 3.74774523533058302e-6          , 3.57320473399810405e-6          , 3.41397751195520103e-6          , 3.26815642805628763e-6          , 3.13413522000394999e-6          , 3.01055194345341756e-6          , 2.89624460885808952e-6          , 2.79021607475747593e-6          , 2.69160603479001082e-6          , },
+/* x = 8.9         */  {0.297056650890482049            , 0.0166809135934831482           , 0.00280372763224536141          , 0.00077990164240139301          , 0.000299040593838637057         , 0.000143538001014928206         , 0.0000810409598136066753        , 0.0000515249186008356927        , 0.0000357575759848608957        , 0.0000264881946775631336        , 0.000020611616426499331         , 0.0000166547763187907024        , 0.0000138579173511334105        , 0.0000118010678256361694        , 0.0000102381968994474789        , 9.017909191121654e-6            , 8.04304822712133855e-6          , 7.24896994455015306e-6          , 6.59129334703617467e-6          , 6.03870378417567499e-6          , 5.5685686011707796e-6           , 5.16417899808935481e-6          , 4.81296463122644995e-6          , 4.50530797321229213e-6          , 4.23373866623406081e-6          , 3.99237461592458045e-6          , 3.77652690618776151e-6          , 3.58241570482808496e-6          , 3.40696276873782162e-6          , 3.2476377155081115e-6           , 3.10234262544759159e-6          , 2.96932436349953031e-6          , 2.84710721452016637e-6          , 2.73444058774153743e-6          , 2.63025802790289662e-6          , 2.53364480018474264e-6          , 2.4438120410733303e-6           , },
+/* x = 9.0         */  {0.295402449419840411            , 0.0164043910897640962           , 0.00272720908140031162          , 0.000750701977939715474         , 0.000285083557860629376         , 0.000135685678703276935         , 0.000076062925647187041         , 0.0000480782349625973324        , 0.0000332090955751266909        , 0.0000245080455939152331        , 0.0000190135034554283267        , 0.0000153263204709619617        , 0.0000127275314858580872        , 0.000010821026836654035         , 9.37544002794329975e-6          , 8.24877537353756352e-6          , 7.35012402738805108e-6          , 6.61912715650700757e-6          , 6.01442479950365085e-6          , 5.50688408305308511e-6          , 5.07548195291059833e-6          , 4.70471977681416567e-6          , 4.3829525731294208e-6           , 4.10128120578579924e-6          , 3.85280069918072304e-6          , 3.63207945406532665e-6          , 3.43479155948067274e-6          , 3.25745269809978366e-6          , 3.09722746160047511e-6          , 2.95178673469708511e-6          , 2.81920073669158178e-6          , 2.69785782508371883e-6          , 2.58640216075526315e-6          , 2.48368535346736419e-6          , 2.38872858864632508e-6          , 2.30069269610649337e-6          , 2.21885429649341556e-6          , },
+/* x = 9.1         */  {0.293775522415920395            , 0.0161353767366719934           , 0.00265354200008383877          , 0.000722859570985114236         , 0.000271887427934378292         , 0.000128314343017543401         , 0.0000714171409177397072        , 0.0000448767595296978823        , 0.0000308508562887556868        , 0.0000226812499131171395        , 0.0000175427439483027976        , 0.000014106143649683737         , 0.0000116909612886050118        , 9.92352877609948131e-6          , 8.58623453102039888e-6          , 7.54587873128993583e-6          , 6.7173863835095206e-6           , 6.04439242668678265e-6          , 5.4883476068089372e-6           , 5.022145767132744e-6            , 4.62625694659682859e-6          , 4.28630364397556244e-6          , 3.99149715389200271e-6          , 3.7336023865398564e-6           , 3.5062364657834349e-6           , 3.30438342490514145e-6          , 3.12405198791469661e-6          , 2.9620300477672629e-6           , 2.81570572181784198e-6          , 2.68293503590671742e-6          , 2.56194278177920836e-6          , 2.45124731859433925e-6          , 2.34960288908399105e-6          , 2.25595490661234521e-6          , 2.16940495895123042e-6          , 2.08918316909451446e-6          , 2.01462618217559291e-6          , },
+/* x = 9.2         */  {0.292175133097928179            , 0.0158735920487006025           , 0.0025825943882752562           , 0.000696300681496694982         , 0.000259405726556509322         , 0.000121391963976711443         , 0.0000670800109731919848        , 0.0000419022141746957854        , 0.0000286681418903990995        , 0.0000209955983858527902        , 0.000016188965624679873         , 0.0000129852650152817382        , 0.000010740309430129708         , 9.10153988674724729e-6          , 7.86424864701534381e-6          , 6.90346787643215325e-6          , 6.1395707789295326e-6           , 5.51991488410767528e-6          , 5.00856625579756979e-6          , 4.58030161018569193e-6          , 4.21697613913851274e-6          , 3.90525107976009085e-6          , 3.63513014090166065e-6          , 3.39899209258050971e-6          , 3.19093622359731553e-6          , 3.00633006082473424e-6          , 2.84149082961783129e-6          , 2.69345718112237542e-6          , 2.55982299590420093e-6          , 2.43861461573076643e-6          , 2.3281989397294494e-6           , 2.22721377643494905e-6          , 2.13451446077763259e-6          , 2.04913250616591127e-6          , 1.97024326500123393e-6          , 1.89714040478216251e-6          , 1.82921559252392323e-6          , },
+/* x = 9.3         */  {0.290600571885719452            , 0.0156187713792602838           , 0.00251424139281197194          , 0.000670956060891488514         , 0.000247595064234529369         , 0.00011488878207702102          , 0.0000630296973854332198        , 0.0000391377330393794903        , 0.0000266474066727160761        , 0.0000194398753740860192        , 0.0000149426559478204853        , 0.0000119554593239815512        , 9.8683512351291581e-6           , 8.34863168817503304e-6          , 7.20370022056734163e-6          , 6.31629435044513814e-6          , 5.61187598847451314e-6          , 5.04127291083255892e-6          , 4.57098496779388303e-6          , 4.17753829732259861e-6          , 3.84407323211871011e-6          , 3.55821349670396649e-6          , 3.31069617634931298e-6          , 3.09446755148095409e-6          , 2.90407222803395184e-6          , 2.73523159653173669e-6          , 2.5845473088680233e-6           , 2.4492890264425751e-6           , 2.32724005248216626e-6          , 2.2165834146940935e-6           , 2.11581666606334294e-6          , 2.02368737374680546e-6          , 1.93914371332663474e-6          , 1.8612962305407484e-6           , 1.78938795527187124e-6          , 1.72277082987020309e-6          , 1.66088695928016568e-6          , },
+/* x = 9.4         */  {0.289051155150906142            , 0.0153706612279441229           , 0.00244836487331253917          , 0.000646760654308833168         , 0.000236414920989638293         , 0.000108777139539899595         , 0.0000592459824139501743        , 0.0000365677503098255321        , 0.0000247761802707846127        , 0.0000180037765450375613        , 0.0000137950898297383725        , 0.0000110091925993549766        , 9.0684768206666063e-6           , 7.65892845532089866e-6          , 6.59930865622510644e-6          , 5.77956837627105446e-6          , 5.12992309083885243e-6          , 4.60443598090690784e-6          , 4.17187200931433573e-6          , 3.81038291425522123e-6          , 3.50430149464475348e-6          , 3.24214338956396967e-6          , 3.0153244784371507e-6           , 2.81731574324678292e-6          , 2.6430731051046029e-6           , 2.48864449965389784e-6          , 2.35089382583598549e-6          , 2.22730357514228555e-6          , 2.11583144022305545e-6          , 2.01480460298307967e-6          , 1.92284074571114031e-6          , 1.83878829424187745e-6          , 1.76168069045776684e-6          , 1.69070102782566926e-6          , 1.62515443125997754e-6          , 1.56444628725032913e-6          , 1.50806493819899498e-6          , },
+/* x = 9.5         */  {0.287526224035114883            , 0.0151290195897487991           , 0.00238485299680835246          , 0.000623653323902845352         , 0.000225827444075379836         , 0.000103031324567932523         , 0.0000557101442294503767        , 0.0000341778971102712792        , 0.000023042980356124663         , 0.0000166778334824430884        , 0.0000127382634883535836        , 0.0000101395633351434033        , 8.33463825371566766e-6          , 7.02705928711532105e-6          , 6.04625109812700405e-6          , 5.28891852410434347e-6          , 4.68971812418600295e-6          , 4.20572990581250031e-6          , 3.80782720082825891e-6          , 3.47567244962868358e-6          , 3.19470503409568781e-6          , 2.95426718474855835e-6          , 2.74640310823617987e-6          , 2.56506894646986856e-6          , 2.40560055770438057e-6          , 2.26434723367442403e-6          , 2.13841468577342285e-6          , 2.02548149780477998e-6          , 1.92366592060854251e-6          , 1.83142776773612271e-6          , 1.74749517940687623e-6          , 1.67080926611151886e-6          , 1.60048178301711034e-6          , 1.53576242149534636e-6          , 1.47601328170987444e-6          , 1.42068876580424974e-6          , 1.36931960444216526e-6          , },
+/* x = 9.6         */  {0.286025143331341837            , 0.0148936153434818221           , 0.00232359985906013606          , 0.000601576591604678459         , 0.000215797260663640382         , 0.00009762742757718279          , 0.0000524048420238623342        , 0.0000319549067614248162        , 0.0000214372325484644985        , 0.0000154533446267209688        , 0.0000117648339279606528        , 9.34024874980832481e-6          , 7.66130128930924988e-6          , 6.44811436155611323e-6          , 5.54012246203964501e-6          , 4.84035494314040793e-6          , 4.28761805971347775e-6          , 3.84180518123390066e-6          , 3.4757523360589922e-6           , 3.17052603871504367e-6          , 2.91259265724129323e-6          , 2.69206054458537236e-6          , 2.50155556907901763e-6          , 2.33548250613030836e-6          , 2.18952819256617813e-6          , 2.06032004921296121e-6          , 1.94518677182328898e-6          , 1.84198762582189808e-6          , 1.74898869423700633e-6          , 1.66477182711747332e-6          , 1.58816673484776317e-6          , 1.51819970494060834e-6          , 1.45405442293773191e-6          , 1.39504171875514069e-6          , 1.34057597217398713e-6          , 1.29015654110162704e-6          , 1.24335301705008577e-6          , },
+/* x = 9.7         */  {0.284547300424615478            , 0.0146642276767815596           , 0.00226450513068512663          , 0.000580476399916103663         , 0.000206291304348428018         , 0.0000925432084578675291        , 0.0000493140102053258106        , 0.0000298865277121656413        , 0.0000199491969396527074        , 0.000014322312006230615         , 0.0000108680635600597727        , 8.60545565505325414e-6          , 7.04340128933003864e-6          , 5.91760500927983868e-6          , 5.07689897924399737e-6          , 4.43023584251823857e-6          , 3.92029979715687114e-6          , 3.50960815736879649e-6          , 3.17282425024153514e-6          , 2.89231970132550025e-6          , 2.65551408755012444e-6          , 2.45322590393469106e-6          , 2.27861952659637216e-6          , 2.12651462080487896e-6          , 1.99292227446428947e-6          , 1.87472661832619013e-6          , 1.76946198357802068e-6          , 1.67515412765015466e-6          , 1.59020525605857788e-6          , 1.51330951248024967e-6          , 1.44339000943879563e-6          , 1.37955131559507412e-6          , 1.32104318707564814e-6          , 1.26723258281933163e-6          , 1.21758185544706822e-6          , 1.17163159652709339e-6          , 1.1289870257835843e-6           , },
+/* x = 9.8         */  {0.283092104288427166            , 0.0144406455453568872           , 0.00220747372635910636          , 0.000560301889406293613         , 0.000197278654408769301         , 0.0000877579739921809556        , 0.0000464227609429496699        , 0.0000279614435115392208        , 0.0000185699006755567005        , 0.0000132773832679738228        , 0.0000100417695234349822        , 7.9298755387733492e-6           , 6.47630295712296172e-6          , 5.43142727019882965e-6          , 4.65290494199956219e-6          , 4.0552369329495062e-6           , 3.58473191271723013e-6          , 3.20635477997406186e-6          , 2.89647029933240731e-6          , 2.63866334913888207e-6          , 2.42123832572650096e-6          , 2.23567203686783456e-6          , 2.07562745679285227e-6          , 1.93630796548476379e-6          , 1.81402423191872022e-6          , 1.70589734346124024e-6          , 1.60965127981358524e-6          , 1.52346522438484876e-6          , 1.44586673005049491e-6          , 1.37565327452557286e-6          , 1.31183386555264373e-6          , 1.25358501870072886e-6          , 1.20021718091678248e-6          , 1.15114884323540201e-6          , 1.10588638084668126e-6          , 1.06400820644102169e-6          , 1.02515220536405911e-6          , },
+/* x = 9.9         */  {0.281658984533620193            , 0.0142226671642204049           , 0.00215241549548510301          , 0.000541005191685320188         , 0.000188730386855609395         , 0.0000832524646285004672        , 0.0000437172943867338302        , 0.0000261691992409780045        , 0.000017291076088812867         , 0.00001231179855826482          , 9.28027730054829687e-6          , 7.30864349774439051e-6          , 5.95576355514877169e-6          , 4.98582862740121162e-6          , 4.26478236786148543e-6          , 3.71232356625291795e-6          , 3.27814891402349264e-6          , 2.92950667205050277e-6          , 2.64434603361577247e-6          , 2.4073798579600141e-6           , 2.20773395981137614e-6          , 2.0374954694995515e-6           , 1.89078904708613194e-6          , 1.76317298296467853e-6          , 1.65123475470528227e-6          , 1.55231418810017823e-6          , 1.46431017863301958e-6          , 1.38554330360478461e-6          , 1.31465654758019453e-6          , 1.25054248262099928e-6          , 1.19228911204361897e-6          , 1.13913907972148761e-6          , 1.09045858415547563e-6          , 1.04571342999649565e-6          , 1.00445039159544983e-6          , 9.66282573934885663e-7          , 9.30877812787958579e-7          , },
+/* x = 10.0        */  {0.280247390506642741            , 0.0140100995288440128           , 0.00209924493283847768          , 0.000522541236721495176         , 0.000180619436364399069         , 0.0000790087498758553385        , 0.0000411848159435961936        , 0.0000245001338752132833        , 0.0000161051039182857199        , 0.0000114193418424186193        , 8.57837826217344578e-6          , 6.73730068715787549e-6          , 5.47789930210731424e-6          , 4.57737763950990022e-6          , 3.90946332521412272e-6          , 3.39872533343623537e-6          , 2.99802777870192225e-6          , 2.67674934673392913e-6          , 2.4143148686601334e-6           , 2.19648601889700422e-6          , 2.01315124872491564e-6          , 1.85696357176183449e-6          , 1.72247519116370159e-6          , 1.60557269199408599e-6          , 1.50309933806185951e-6          , 1.41259689012731322e-6          , 1.33212558170040614e-6          , 1.26013630338183369e-6          , 1.19537834617580006e-6          , 1.1368317984767876e-6           , 1.08365731738228085e-6          , 1.03515832989171402e-6          , 9.90752251034656583e-7          , 9.49948327738391317e-7          , 9.12330409799368336e-7          , 8.77543425683578183e-7          , 8.45282673052459971e-7          , },
+/* x = 10.1        */  {0.278856790434270053            , 0.0138027579643091461           , 0.00204788090780703652          , 0.000504867573455934747         , 0.00017292046826565557          , 0.0000750101316418613577        , 0.0000388134600413452587        , 0.0000229453180847617651        , 0.0000150049611904022657        , 0.0000105942962876998915        , 7.93129080400976391e-6          , 6.21175998311407593e-6          , 5.0391546725902494e-6           , 4.20293621729977854e-6          , 3.58414468523729269e-6          , 3.11191290329607819e-6          , 2.7420665731127582e-6           , 2.44597236076338179e-6          , 2.20442957432760664e-6          , 2.00417519924855134e-6          , 1.83580581907885119e-6          , 1.69249917608575199e-6          , 1.56920343298943699e-6          , 1.46210887421900773e-6          , 1.36829514173230965e-6          , 1.28549043166249825e-6          , 1.21190380145973773e-6          , 1.14610625010224709e-6          , 1.0869449767486575e-6           , 1.03348061630558262e-6          , 9.84940650333102299e-7          , 9.40684378466263952e-7          , 9.00176268221481216e-7          , 8.62965455895820327e-7          , 8.28669817807883836e-7          , 7.96963475417983973e-7          , 7.67566907394859092e-7          , },
+/* x = 10.2        */  {0.27748667061208716             , 0.0136004657006570114           , 0.00199824641094543665          , 0.000487944202747208654         , 0.000165609759830702641         , 0.0000712410548917743658        , 0.0000365922198590878098        , 0.0000214964970335301384        , 0.0000139841733734718319        , 9.83140336592619793e-6          , 7.33462476806230668e-6          , 5.72827458064616351e-6          , 4.63627434660465962e-6          , 3.85963431279361696e-6          , 3.28626508633828202e-6          , 2.8495769029256605e-6           , 2.50816496600827308e-6          , 2.23525123500717191e-6          , 2.01291541868256434e-6          , 1.8288015591729498e-6           , 1.6741638295891342e-6           , 1.54266658475626458e-6          , 1.4296247284506212e-6           , 1.33150951451721812e-6          , 1.24561904402855623e-6          , 1.16985365065061522e-6          , 1.10255968132620939e-6          , 1.04241884441972516e-6          , 9.88368517595989186e-7          , 9.3954347151199407e-7           , 8.9523265368043851e-7           , 8.54846725018629634e-7          , 8.17893381963086392e-7          , 7.83958389385976025e-7          , 7.52690853173220053e-7          , 7.23791675726739173e-7          , 6.97004426101557682e-7          , },
+/* x = 10.3        */  {0.276136534634196706            , 0.0134030534727675236           , 0.00195026831665615786          , 0.000471733421752187879         , 0.000158665090149494959         , 0.0000676870250562978465        , 0.0000345108825453183164        , 0.000020146037762301899         , 0.0000130367704489713345        , 9.12582536149483949e-6          , 6.78434886809140566e-6          , 5.28340927399031675e-6          , 4.26627757844943163e-6          , 3.54484680949110665e-6          , 3.01348391604567407e-6          , 2.60960865920415312e-6          , 2.29440646842765791e-6          , 2.04283098409678239e-6          , 1.83815481833341699e-6          , 1.66886568410764248e-6          , 1.52682847060577975e-6          , 1.40615884024844544e-6          , 1.30251140509534758e-6          , 1.2126173807559052e-6           , 1.13397678202954131e-6          , 1.06464888998682186e-6          , 1.00310670891305441e-6          , 9.48133999353052919e-7          , 8.98751202849461981e-7          , 8.54161328966035883e-7          , 8.13709865207627347e-7          , 7.76854688929430799e-7          , 7.43143214409473135e-7          , 7.12194842276541751e-7          , 6.83687342078121534e-7          , 6.57346185323853985e-7          , 6.32936115158963068e-7          , },
+/* x = 10.4        */  {0.274805902661777768            , 0.0132103591432100656           , 0.00190387716089527852          , 0.000456199678916730237         , 0.000152065637952341732         , 0.0000643345316616669207        , 0.0000325599694841313698        , 0.0000188868807829473159        , 0.0000121572465738368318        , 8.47311099744338964e-6          , 6.27676086264522917e-6          , 4.87401418784356616e-6          , 3.92643477461530698e-6          , 3.25617242100860759e-6          , 2.76366213263599848e-6          , 2.39008263644424613e-6          , 2.09904224621961507e-6          , 1.86711111138671447e-6          , 1.6786733601024697e-6           , 1.52300150554748762e-6          , 1.39252767826674907e-6          , 1.28178614425639785e-6          , 1.18674621127987842e-6          , 1.10437963938417753e-6          , 1.03237307897368785e-6          , 9.68932589485916736e-7          , 9.1264803150856332e-7           , 8.6239724334376055e-7           , 8.17277181514576623e-7          , 7.76553670092655337e-7          , 7.39624208031876365e-7          , 7.05990080843308737e-7          , 6.75235196381000671e-7          , 6.47009844055836879e-7          , 6.21018103045068962e-7          , 5.97007985658948165e-7          , 5.74763652566427079e-7          , },
+/* x = 10.5        */  {0.273494310728271882            , 0.0130222273466153398           , 0.00185900693288077486          , 0.000441309438812101294         , 0.000145791886777855328         , 0.0000611709776976643237        , 0.0000307306812059314478        , 0.0000177124955393981744        , 0.0000113405230352964504        , 7.8691639166805952e-6           , 5.80846024129448338e-6          , 4.49720074844938062e-6          , 3.61424608878993316e-6          , 2.99141442238100815e-6          , 2.53484476450190773e-6          , 2.18924042003848411e-6          , 1.92047636530694522e-6          , 1.70663193835152544e-6          , 1.53312707107410631e-6          , 1.38996439428546551e-6          , 1.27010295368504748e-6          , 1.16846532149237089e-6          , 1.08131235592499003e-6          , 1.00583841270844731e-6          , 9.39902668930945977e-7          , 8.81846734660437857e-7          , 8.30368291330246326e-7          , 7.84431909083614162e-7          , 7.43205030945315287e-7          , 7.06011305435038739e-7          , 6.72296079567625131e-7          , 6.41600547803713102e-7          , 6.13542150566036552e-7          , 5.87799544621200858e-7          , 5.64100959041585697e-7          , 5.42215086862964535e-7          , 5.21943896072539243e-7          , },
+/* x = 10.6        */  {0.272201310079112563            , 0.0128385091542160877           , 0.00181559487985456415          , 0.000427031056110439508         , 0.000139825536935923272         , 0.0000581846142779153891        , 0.0000290148465719606643        , 0.0000166168394199993132        , 0.0000105819142249286086        , 7.31021377793788441e-6          , 5.37632320987342489e-6          , 4.15031970169050596e-6          , 3.3274218588386057e-6           , 2.74856305374820501e-6          , 2.32524493960841222e-6          , 2.00547610929909237e-6          , 1.75725234230040883e-6          , 1.56006214926463657e-6          , 1.40029082513014545e-6          , 1.26862032067510309e-6          , 1.15849918749178416e-6          , 1.06521023375754501e-6          , 9.85284449059964111e-7          , 9.16122192273357961e-7          , 8.55742137044557922e-7          , 8.02611084135855752e-7          , 7.55526205633275807e-7          , 7.13532036182095355e-7          , 6.75860955590190956e-7          , 6.41889846091400389e-7          , 6.11108074900444657e-7          , 5.83093530067166408e-7          , 5.57494465223032428e-7          , 5.3401558999971281e-7           , 5.1240730181497934e-7           , 4.92457268572187653e-7          , 4.73983789486892788e-7          , },
+/* x = 10.7        */  {0.2709264665440452              , 0.0126590617572958873           , 0.00177358132401749764          , 0.000413334658045526917         , 0.000134149423757265244         , 0.0000553644801823446263        , 0.0000274048758921765745        , 0.0000155943200320132371        , 9.87709638163487675e-6          , 6.79278974647573413e-6          , 4.97747977896386701e-6          , 3.83094100210415948e-6          , 3.06386472594315297e-6          , 2.5257794502507771e-6           , 2.1332293104466723e-6           , 1.83732299484772441e-6          , 1.60804088444239543e-6          , 1.42618744268162873e-6          , 1.27904778414228089e-6          , 1.15793598598374759e-6          , 1.05675539907261503e-6          , 9.711230583535057e-7            , 8.97820261494792087e-7          , 8.34438030563245304e-7          , 7.79142501086931537e-7          , 7.30516104675114528e-7          , 6.87447823608347967e-7          , 6.49055922337862049e-7          , 6.14632608194870014e-7          , 5.83603773546513851e-7          , 5.55499286263183307e-7          , 5.29930773310373239e-7          , 5.06574803987912134e-7          , 4.85160016168322164e-7          , 4.65457157479691147e-7          , 4.47271306209649286e-7          , 4.30435739610883405e-7          , },
+/* x = 10.8        */  {0.269669359940206005            , 0.0124837481683701312           , 0.00173290949081940841          , 0.000400192034753975467         , 0.000128747441660493349         , 0.0000527003459043179723        , 0.0000258937176637187852        , 0.0000146397604730172347        , 9.22207887426326781e-6          , 6.31369617830109335e-6          , 4.6092927766920758e-6           , 3.53683541200748405e-6          , 2.8216532900463054e-6           , 2.32138096481415271e-6          , 1.95730475179676791e-6          , 1.68344140698770059e-6          , 1.4716287132151288e-6           , 1.30390019096885712e-6          , 1.16837978114528069e-6          , 1.05696983755571524e-6          , 9.63996308032451752e-7          , 8.85386352692527102e-7          , 8.18153229379941155e-7          , 7.60064440320621091e-7          , 7.09422466847095131e-7          , 6.64916549274802084e-7          , 6.25520398233470827e-7          , 5.90420263666760065e-7          , 5.58963476412030886e-7          , 5.30621052977491854e-7          , 5.04960125671300138e-7          , 4.81623345128582036e-7          , 4.60313302404107957e-7          , 4.40780613198846332e-7          , 4.22814707090313324e-7          , 4.06236637873133469e-7          , 3.9089342026946944e-7           , },
+/* x = 10.9        */  {0.268429583504242283            , 0.0123124369390021332           , 0.0016935253478445238           , 0.000387576536937010938         , 0.000123604473603820918         , 0.0000501826618549820043        , 0.0000244748186426156643        , 0.0000137483673558817923        , 8.61317781387368437e-6          , 5.86999031376477383e-6          , 4.26933862228211642e-6          , 3.26595766385981102e-6          , 2.59902716848601324e-6          , 2.13382776221879662e-6          , 1.7961062194553644e-6           , 1.54260763157912857e-6          , 1.3469083753748817e-6           , 1.19219001796286841e-6          , 1.06735856114311145e-6          , 9.64863888372227469e-7          , 8.79424662877812227e-7          , 8.07255834046318191e-7          , 7.45585636156473278e-7          , 6.92344937213795082e-7          , 6.45962296021458903e-7          , 6.05225619691326675e-7          , 5.69186816902619069e-7          , 5.37094830277901189e-7          , 5.08347783004770672e-7          , 4.82458240160154292e-7          , 4.59027622645345802e-7          , 4.37727109430528861e-7          , 4.18283206345997868e-7          , 4.00466716362811774e-7          , 3.84084220207698354e-7          , 3.68971431126175306e-7          , 3.54987963953113854e-7          , },
+/* x = 11.0        */  {0.267206743351862277            , 0.0121450018932305469           , 0.00165537745358642704          , 0.000375462980324631344         , 0.000118706325521916988         , 0.0000478025104048639653        , 0.0000231420869846935436        , 0.0000129157013641259276        , 8.04699180325651158e-6          , 5.45896181205068353e-6          , 3.95538971085078762e-6          , 3.01643105171004003e-6          , 2.39437333632205734e-6          , 1.9617105735366261e-6           , 1.64838566796560206e-6          , 1.41370379912530911e-6          , 1.23286895375631469e-6          , 1.09013521289603298e-6          , 9.75137802777977038e-7          , 8.8083626875179505e-7           , 8.0231425868519762e-7           , 7.36053809811247415e-7          , 6.79482410528999069e-7          , 6.30682167434513582e-7          , 5.88198230871658138e-7          , 5.50909660112072249e-7          , 5.17940539794092062e-7          , 4.88597628129146363e-7          , 4.62325852584426848e-7          , 4.38676036684848684e-7          , 4.17281153370927866e-7          , 3.97838616608224568e-7          , 3.80096911639658567e-7          , 3.63845384833279433e-7          , 3.48906363344730123e-7          , 3.35129012751850872e-7          , 3.22384505233443299e-7          , },
+/* x = 11.1        */  {0.266000457963301802            , 0.0119813218756523399           , 0.00161841681545662904          , 0.000363827556462310369         , 0.000114039665379113403         , 0.0000455515614681155677        , 0.0000218898582130367665        , 0.000012137650132865898         , 7.52037964743844336e-6          , 5.07811397236930221e-6          , 3.66539827275503217e-6          , 2.78653332918921836e-6          , 2.20621363745481956e-6          , 1.80373950975294869e-6          , 1.51300193439074715e-6          , 1.29570866114759637e-6          , 1.1285875980054261e-6           , 9.96894906050632126e-7          , 8.90945850987256595e-7          , 8.04174444444750722e-7          , 7.32003581688750008e-7          , 6.71163199521789295e-7          , 6.19265484665851878e-7          , 5.74532567121995788e-7          , 5.35617424994539372e-7          , 5.01483333553036092e-7          , 4.71320999610351923e-7          , 4.44490502679892969e-7          , 4.20479902141400239e-7          , 3.98875252351566921e-7          , 3.79338561661595512e-7          , 3.61591371238842264e-7          , 3.45402367936578137e-7          , 3.30577932253268059e-7          , 3.16954848698825766e-7          , 3.04394627944322065e-7          , 2.92779043432064802e-7          , },
+/* x = 11.2        */  {0.264810357693287246            , 0.0118212805132688199           , 0.00158259675641699905          , 0.000352647749375862245         , 0.000109591966498453338         , 0.0000434220313580535306        , 0.0000207128637889691019        , 0.0000114104032674516684        , 7.03043986366491394e-6          , 4.72514650074207962e-6          , 3.39748158251868569e-6          , 2.57468380210765384e-6          , 2.03319336530335201e-6          , 1.65873384227244852e-6          , 1.38891150337835521e-6          , 1.18768917554872088e-6          , 1.03322180251470509e-6          , 9.11701938272514038e-7          , 8.14079097047189195e-7          , 7.34229041297546734e-7          , 6.67890024326936127e-7          , 6.12022095166224457e-7          , 5.64408661895834744e-7          , 5.23401505340696879e-7          , 4.87753334166598211e-7          , 4.56505236985819597e-7          , 4.28909420562314557e-7          , 4.04375143934005274e-7          , 3.82430216548631102e-7          , 3.62693137392456224e-7          , 3.44852635735444814e-7          , 3.2865244259737412e-7           , 3.13879813301500721e-7          , 3.00356776737347925e-7          , 2.87933391773274892e-7          , 2.76482498512277418e-7          , 2.65895595030836755e-7          , },
+/* x = 11.3        */  {0.263636084304160788            , 0.0116647659902610177           , 0.00154787278966908251          , 0.000341902257702815236         , 0.000105351454852120284         , 0.000041406644664039572         , 0.0000196062020815330558        , 0.0000107304293273513936        , 6.57449184285321563e-6          , 4.39793969321754138e-6          , 3.14990840306836529e-6          , 2.37943151339147968e-6          , 1.87407082062901779e-6          , 1.52561266610341656e-6          , 1.27516007623911578e-6          , 1.08879282960823571e-6          , 9.46002365312702495e-7          , 8.33856362545617337e-7          , 7.43895948110990101e-7          , 6.70408222049486868e-7          , 6.09424619386803422e-7          , 5.58118811197819016e-7          , 5.14432947775132177e-7          , 4.76838866729766258e-7          , 4.44181525420831133e-7          , 4.15573915213827212e-7          , 3.90325018323759173e-7          , 3.67889456166858656e-7          , 3.47831673778274141e-7          , 3.29800050600592722e-7          , 3.13507908125961952e-7          , 2.9871938645555082e-7           , 2.85238809066879255e-7          , 2.72902580865438984e-7          , 2.61572949389211566e-7          , 2.5113315248085697e-7           , 2.41483609042151076e-7          , },
+/* x = 11.4        */  {0.262477290520914275            , 0.0115116708349154247           , 0.00151420250087296857          , 0.000331570921908870697         , 0.00010130706002278526          , 0.0000394985989194068596        , 0.0000185653115469686189        , 0.0000100944546170175922        , 6.15005852687162016e-6          , 4.09453991729064031e-6          , 2.92108656078645711e-6          , 2.19944442692651999e-6          , 1.72770776213679895e-6          , 1.4033863688960101e-6           , 1.17087487357900565e-6          , 9.98240635578957033e-7          , 8.66226967559505455e-7          , 7.62719521354067385e-7          , 6.79811333543921704e-7          , 6.1217256572518243e-7           , 5.56107246521542593e-7          , 5.08987380034750118e-7          , 4.68902302583478572e-7          , 4.34435033932701407e-7          , 4.04515866326579934e-7          , 3.78324237167169875e-7          , 3.55221546181347367e-7          , 3.34704258992125737e-7          , 3.1637058780596368e-7           , 2.99896432559166057e-7          , 2.85017749052625163e-7          , 2.71517449544701372e-7          , 2.59215547312510649e-7          , 2.47961654943958271e-7          , 2.37629212221678092e-7          , 2.28111000030914242e-7          , 2.19315621035261736e-7          , },
+/* x = 11.5        */  {0.261333639606953566            , 0.0113618917179719537           , 0.00148154543740509697          , 0.000321634656235950181         , 0.0000974483695675226328        , 0.0000376915318482205645        , 0.0000175859459448606739        , 9.49944363845904564e-6          , 5.75485047731543365e-6          , 3.81314628329268093e-6          , 2.70955155582305334e-6          , 2.03349952494145258e-6          , 1.59306067282707386e-6          , 1.29114883574113633e-6          , 1.07525760723391175e-6          , 9.15320739615336091e-7          , 7.93254318671509047e-7          , 6.9770864858822121e-7           , 6.21291700085088331e-7          , 5.59030404544241632e-7          , 5.07482268634552735e-7          , 4.64203452842867453e-7          , 4.27419777113590858e-7          , 3.95817233542646864e-7          , 3.68405059907551821e-7          , 3.44424101601709934e-7          , 3.2328415578506504e-7           , 3.04520289477292887e-7          , 2.87761840113930351e-7          , 2.7271005599405736e-7           , 2.59121726305159717e-7          , 2.46797030694957914e-7          , 2.35570405876158167e-7          , 2.2530359927476392e-7           , 2.15880328381672691e-7          , 2.07202133030639347e-7          , 1.991851237628123e-7            , },
+/* x = 11.6        */  {0.260204804959485507            , 0.0112153292617133301           , 0.00144986300419843719          , 0.000312075385054135273         , 0.0000937655865363232455        , 0.0000359794909952871377        , 0.0000166641514315478836        , 8.942581072149779e-6            , 5.38675122181030477e-6          , 3.55209840666067097e-6          , 2.51395612027177302e-6          , 1.88047374092498357e-6          , 1.4691727717684055e-6           , 1.18807032577424669e-6          , 9.87578062916251985e-7          , 8.39382590013952289e-7          , 7.26498816990728727e-7          , 6.38291949329587652e-7          , 5.67850452167584196e-7          , 5.10533577325560379e-7          , 4.63134559459018979e-7          , 4.23380569033282916e-7          , 3.89623997076877195e-7          , 3.60646212595338762e-7          , 3.35529493781608076e-7          , 3.1357144220048195e-7           , 2.9422654379211056e-7           , 2.7706547779026919e-7           , 2.61746273371430645e-7          , 2.47993527841548806e-7          , 2.35583207172576082e-7          , 2.24331375055152006e-7          , 2.14085728113231117e-7          , 2.04719163410017593e-7          , 1.96124836733774321e-7          , 1.8821232751650059e-7           , 1.80904634371721008e-7          , },
+/* x = 11.7        */  {0.259090469723485612            , 0.0110718878591591818           , 0.00141911836574003368          , 0.000302875983313650044         , 0.0000902494899160167924        , 0.0000343569055591193917        , 0.0000157962453841690574        , 8.42125516382223853e-6          , 5.04380377335795781e-6          , 3.30986517035589392e-6          , 2.33306064427370168e-6          , 1.73933565679446027e-6          , 1.35516670707330004e-6          , 1.09339096222543316e-6          , 9.07168240142279074e-7          , 7.69831615528578122e-7          , 6.65425680368741738e-7          , 5.83984115017568901e-7          , 5.1904379764348489e-7           , 4.66273562053486147e-7          , 4.22685887150794643e-7          , 3.8616676121475279e-7           , 3.55185964593034397e-7          , 3.28613215637999263e-7          , 3.055983749670342e-7            , 2.85491504813132937e-7          , 2.67788358321043363e-7          , 2.52092471378544152e-7          , 2.38088323293271934e-7          , 2.25522019955518597e-7          , 2.14187180197360347e-7          , 2.03914479969299832e-7          , 1.9456380672258651e-7           , 1.86018302402169148e-7          , 1.78179790606323412e-7          , 1.7096523038798933e-7           , 1.64303940033755441e-7          , },
+/* x = 11.8        */  {0.257990326423266081            , 0.0109314755027691103           , 0.00138927635383018026          , 0.000294020220815077307         , 0.0000868913977877315374        , 0.0000328185602616316514        , 0.0000149787968204606484        , 7.93304240469964262e-6          , 4.72419822692448203e-6          , 3.0850344043491242e-6           , 2.16572439693036002e-6          , 1.60913789917206344e-6          , 1.25023787143561846e-6          , 1.00641478266159314e-6          , 8.33417000711277607e-7          , 7.06124368879245222e-7          , 6.09546505092361802e-7          , 5.34342235295384581e-7          , 4.74466962722949025e-7          , 4.2587795363018011e-7           , 3.85791621885600039e-7          , 3.52241465348844842e-7          , 3.23806148089977324e-7          , 2.99437235125937129e-7          , 2.78347124400092445e-7          , 2.59934372056257053e-7          , 2.43732841516620608e-7          , 2.29376384970509697e-7          , 2.16573866877168219e-7          , 2.0509120749668327e-7           , 1.94738276577434303e-7          , 1.85359193057060556e-7          , 1.76825052860930157e-7          , 1.69028411901847324e-7          , 1.61879054336733364e-7          , 1.55300713311768592e-7          , 1.49228505510962146e-7          , },
+/* x = 11.9        */  {0.256904076610721443            , 0.0107940036220972296           , 0.00136030338073463484          , 0.00028549271003637793          , 0.0000836831330019859679        , 0.0000313595711012812705        , 0.0000142086082901980884        , 7.47569340189897796e-6          , 4.42626034542458809e-6          , 2.87630340608565229e-6          , 2.01089747513646725e-6          , 1.48901017523051845e-6          , 1.15364828667741392e-6          , 9.26504300821675425e-7          , 7.6576518129435981e-7           , 6.47764094544410146e-7          , 5.58415215272993341e-7          , 4.88962071286945683e-7          , 4.33750743179143945e-7          , 3.89007255892808948e-7          , 3.52137738337818319e-7          , 3.21312708591221767e-7          , 2.95211834539624495e-7          , 2.72862510374102071e-7          , 2.53535007571568249e-7          , 2.3667271275745257e-7           , 2.2184468669120202e-7           , 2.08712755766984625e-7          , 1.97008267218684092e-7          , 1.86515395969979841e-7          , 1.77058972892829312e-7          , 1.68495484835425001e-7          , 1.60706333497995884e-7          , 1.53592725629842834e-7          , 1.47071756715125919e-7          , 1.41073378401857792e-7          , 1.3553802769548026e-7           , },
+/* x = 12.0        */  {0.255831430529383064            , 0.010659386929876239            , 0.00133216735738647453          , 0.000277278857274126852         , 0.0000806169911902316565        , 0.0000299753628482815291        , 0.0000134826991240736921        , 7.04711984415124115e-6          , 4.14844105453918364e-6          , 2.68247023224324634e-6          , 1.86761341913722795e-6          , 1.37815289368973238e-6          , 1.06472100839731812e-6          , 8.53075535691864307e-7          , 7.03701129598005272e-7          , 5.9429668354224763e-7           , 5.11624368186727782e-7          , 4.47474658201408627e-7          , 3.96558361821712175e-7          , 3.55351959753130863e-7          , 3.21438086543495579e-7          , 2.93114549789796207e-7          , 2.69154720318042798e-7          , 2.48656252540988173e-7          , 2.30942979837426432e-7          , 2.15499735779403559e-7          , 2.0192809047589049e-7           , 1.89915685078916091e-7          , 1.79214596917173969e-7          , 1.69625819622946104e-7          , 1.60987958517733765e-7          , 1.53168879843897912e-7          , 1.46059461534889945e-7          , 1.39568860268318195e-7          , 1.33620886860379553e-7          , 1.28151201668249143e-7          , 1.23105123546561641e-7          , },
+/* x = 12.1        */  {0.254772106793464264            , 0.0105275432760422568           , 0.00130483761631756695          , 0.000269364816873809281         , 0.0000776857109452485464        , 0.0000286616481514705278        , 0.0000127982899348977546        , 6.64538247570333329e-6          , 3.88930677247520062e-6          , 2.50242569795158125e-6          , 1.73498243881941734e-6          , 1.27583132122138925e-6          , 9.82835006051314397e-7          , 7.85593467340194861e-7          , 6.46756627129550288e-7          , 5.45306981202760912e-7          , 4.68801784117167108e-7          , 4.09543208025469846e-7          , 3.6258260492732646e-7           , 3.24629881845493172e-7          , 2.93431907038185513e-7          , 2.67404749872539742e-7          , 2.45408719126820852e-7          , 2.26606575167636118e-7          , 2.10371726910279062e-7          , 1.96227329626178915e-7          , 1.83804982201858693e-7          , 1.72816149382163903e-7          , 1.63032023734250842e-7          , 1.54269095504221229e-7          , 1.46378652607392901e-7          , 1.39239031710777797e-7          , 1.32749824633423841e-7          , 1.26827494195140719e-7          , 1.21402019397697683e-7          , 1.16414301520289084e-7          , 1.11814139102908291e-7          , },
+/* x = 12.2        */  {0.253725832081125116            , 0.0103983935092425412           , 0.00127828483902133246          , 0.000261737448340145528         , 0.0000748824460153240676        , 0.0000274144081365084084        , 0.0000121527882743639774        , 6.26867999834509268e-6          , 3.64753050688790762e-6          , 2.33514602499930267e-6          , 1.61218519950308633e-6          , 1.18137022878907248e-6          , 9.07420477665459949e-7          , 7.23567882562502229e-7          , 5.94503164839185076e-7          , 5.00415416935447659e-7          , 4.2960747204456693e-7           , 3.74860285670461655e-7          , 3.31543212760439081e-7          , 2.96583740369868921e-7          , 2.6788156833251818e-7           , 2.43962651414827912e-7          , 2.23767967365826061e-7          , 2.06520611653718377e-7          , 1.91639882812021286e-7          , 1.78684370929409783e-7          , 1.67313414356084205e-7          , 1.57260465318074529e-7          , 1.48314343663223557e-7          , 1.40305818921815509e-7          , 1.33097856937527488e-7          , 1.26578428937611984e-7          , 1.20655139998283224e-7          , 1.1525116773676087e-7           , 1.1030215701850549e-7           , 1.05753820785468627e-7          , 1.01560068387574927e-7          , },
+/* x = 12.3        */  {0.252692340841230325            , 0.0102718613453970424           , 0.00125248098746861967          , 0.000254384276133333948         , 0.0000722007393687095284        , 0.0000262298743843618911        , 0.0000115437753562966491        , 5.9153388279989107e-6           , 3.42188365678457015e-6          , 2.17968608545749828e-6          , 1.49846712034996881e-6          , 1.0941489863522809e-6           , 8.37954561911350649e-7          , 6.66549576613842743e-7          , 5.46548540873598345e-7          , 4.59274927733785254e-7          , 3.93730825067646671e-7          , 3.43145234315004283e-7          , 3.03184501542354275e-7          , 2.70978946909913553e-7          , 2.44570506764365602e-7          , 2.22587248546981906e-7          , 2.04045009123454765e-7          , 1.88222802742773563e-7          , 1.74582409179964338e-7          , 1.62715186452642999e-7          , 1.5230609943095765e-7           , 1.43108894583639053e-7          , 1.34928647927516795e-7          , 1.27609287348992787e-7          , 1.21024532134444702e-7          , 1.15071219395036262e-7          , 1.09664323528619908e-7          , 1.04733193751099971e-7          , 1.00218679603270865e-7          , 9.6070911770018493e-8           , 9.22475720564259446e-8          , },
+/* x = 12.4        */  {0.251671375012915116            , 0.010147873242911596            , 0.00122739923951722791          , 0.000247293451970911446         , 0.0000696344989955179199        , 0.0000251045121875857085        , 0.0000109689937643510921        , 5.58380363826727774e-6          , 3.21122846235780068e-6          , 2.03517319163495574e-6          , 1.39313314248098588e-6          , 1.01359706792600783e-6          , 7.73957413498486727e-7          , 6.14126880238970118e-7          , 5.02533752375664674e-7          , 4.21568149651555093e-7          , 3.60888061760584622e-7          , 3.14141827845305778e-7          , 2.77273196252015846e-7          , 2.47601594910841816e-7          , 2.23301350563996838e-7          , 2.03095430064038754e-7          , 1.86069144565240208e-7          , 1.71553338625004037e-7          , 1.5904912128385002e-7           , 1.48178154652134747e-7          , 1.38649079827546889e-7          , 1.30234375940494994e-7          , 1.22754111660948202e-7          , 1.16064341013642673e-7          , 1.10048685978597114e-7          , 1.04612142627367529e-7          , 9.96764628221147202e-8          , 9.51766683831349823e-8          , 9.10583900860618775e-8          , 8.72758148549419474e-8          , 8.37900865792406862e-8          , },
+/* x = 12.5        */  {0.250662683757313042            , 0.0100263582841656385           , 0.00120301392797299348          , 0.000240453719467715549         , 0.0000671779753240772068        , 0.0000240350049897846476        , 0.0000104263360686220981        , 5.27262862880034418e-6          , 3.01451105039705967e-6          , 1.90080138738685373e-6          , 1.295542927530862e-6            , 9.39189932242777239e-7          , 7.1498861078020822e-7           , 5.65922483897061381e-7          , 4.62130155725679451e-7          , 3.87004853758641324e-7          , 3.30819891777568402e-7          , 2.87616130263243451e-7          , 2.53596455485393991e-7          , 2.26256627235236267e-7          , 2.03894211603821737e-7          , 1.85320380147120809e-7          , 1.69684926969900951e-7          , 1.56366741662674873e-7          , 1.44903347442681921e-7          , 1.34944434104509725e-7          , 1.26220518690053e-7             , 1.1852137273976552e-7           , 1.11680893144337304e-7          , 1.05566309485942214e-7          , 1.00070363503676785e-7          , 9.51055600658245152e-8          , 9.05998844827309385e-8          , 8.64935727719536004e-8          , 8.27366481456888093e-8          , 7.92870219989542739e-8          , 7.61090155938832981e-8          , },
+/* x = 12.6        */  {0.249666023200836123            , 0.00990724806292071363          , 0.001179300483076508            , 0.000233854380958269875         , 0.0000648257401378472198        , 0.0000230182399208922934        , 9.91383428157444622e-6          , 4.98046946136224673e-6          , 2.83075502723390943e-6          , 1.77582619955703481e-6          , 1.2051064506922412e-6           , 8.70445247238011187e-7          , 6.60643867156153734e-7          , 5.21590533522407148e-7          , 4.25036871863722611e-7          , 3.5531960515511002e-7           , 3.03289385939255056e-7          , 2.63354543724453715e-7          , 2.3196007127844035e-7           , 2.06766166792186895e-7          , 1.86185129791908956e-7          , 1.69110122513058888e-7          , 1.5475079499691861e-7           , 1.42530577012783899e-7          , 1.32020709740542065e-7          , 1.22896807267753094e-7          , 1.14909600655405738e-7          , 1.07864825420528607e-7          , 1.01609133491662309e-7          , 9.6020054558951127e-8           , 9.0998729557100527e-8           , 8.64645741604741642e-8          , 8.23513070623289338e-8          , 7.86039573377856146e-8          , 7.51765836306528956e-8          , 7.20305173165026421e-8          , 6.91329958465279516e-8          , },
+/* x = 12.7        */  {0.248681156189432009            , 0.00979047657731787294          , 0.00115623537820455049          , 0.000227485266356878584         , 0.0000625726668874060498        , 0.0000220512943475833869        , 9.42965008918822189e-6          , 4.70607581107915214e-6          , 2.65905557512404968e-6          , 1.6595598117745049e-6           , 1.12127995534169972e-6          , 8.06919429296821804e-7          , 6.10552020306711861e-7          , 4.80813974394936075e-7          , 3.90978415379009993e-7          , 3.26269625510034235e-7          , 2.78080032786403191e-7          , 2.41162028500586028e-7          , 2.12186828326145305e-7          , 1.88967995670510081e-7          , 1.70024656421790274e-7          , 1.5432619508885752e-7           , 1.41137827983639888e-7          , 1.29924279575880895e-7          , 1.20288015040550466e-7          , 1.11928629092541441e-7          , 1.04615532507212333e-7          , 9.81691994033792688e-8          , 9.24480476043086442e-8          , 8.73391006066603348e-8          , 8.2751235344745651e-8           , 7.86102282674434839e-8          , 7.48550717642724121e-8          , 7.143520104886955e-8            , 6.83083823715684894e-8          , 6.54390876221183288e-8          , 6.2797230832046501e-8           , },
+/* x = 12.8        */  {0.247707852053275027            , 0.00967598012815246053          , 0.00113379607858927126          , 0.000221336703920871841         , 0.0000604139122997681908        , 0.0000211314233642920514        , 8.97206579824903769e-6          , 4.4482844845781363e-6           , 2.49857401158729858e-6          , 1.55136662597448731e-6          , 1.04356223912023664e-6          , 7.48204470683115965e-7          , 5.64372275534158843e-7          , 4.4330212173112384e-7           , 3.59702527918091519e-7          , 2.99632841312009892e-7          , 2.54993965181058823e-7          , 2.20860479646005483e-7          , 1.94115008420819966e-7          , 1.727141695130132e-7            , 1.55276564022277892e-7          , 1.4084244347172628e-7           , 1.2872861317371208e-7           , 1.18438086749212609e-7          , 1.09602246295929369e-7          , 1.01942870955599152e-7          , 9.52466346366545287e-8          , 8.93476196759956729e-8          , 8.41150980524437975e-8          , 7.94448444121912369e-8          , 7.52528612610188353e-8          , 7.14707798783182876e-8          , 6.80424437615957549e-8          , 6.49213387682235654e-8          , 6.20686377122569566e-8          , 5.94516964886144223e-8          , 5.7042885884938406e-8           , },
+/* x = 12.9        */  {0.24674588638137813             , 0.00956369722213380865          , 0.00111196099287114571          , 0.000215399492791855113         , 0.0000583448991944619827        , 0.0000202560481559802794        , 8.53947594534559835e-6          , 4.20601306060566444e-6          , 2.34853277454334615e-6          , 1.45065917989807165e-6          , 9.71491243883594007e-7          , 6.93925030840652642e-7          , 5.21791681529781969e-7          , 4.08788438464260204e-7          , 3.30978198165441455e-7          , 2.75206101586479311e-7          , 2.33850341988923359e-7          , 2.02287246502629259e-7          , 1.77597027198658453e-7          , 1.57869755057508791e-7          , 1.41816671371170809e-7          , 1.28543922494239039e-7          , 1.17416214782389253e-7          , 1.07972067416313194e-7          , 9.98696450658947347e-8          , 9.28512512543490711e-8          , 8.67195150428359169e-8          , 8.13210841629328538e-8          , 7.65352443059949996e-8          , 7.22658371928325197e-8          , 6.8435429012034213e-8           , 6.49810404599787218e-8          , 6.1850977640000911e-8           , 5.90024504160241569e-8          , 5.63997617056969977e-8          , 5.40129159622657702e-8          , 5.181653904861371e-8            , },
+/* x = 13.0        */  {0.245795040805641159            , 0.0094535684798551607           , 0.0010907094273137885           , 0.000209664877198536979         , 0.0000563613004224145308        , 0.0000194227451690288355        , 8.13037951739754369e-6          , 3.9782540122764236e-6           , 2.2082107991217423e-6           , 1.3568943914649448e-6           , 9.04640924263572954e-7          , 6.43735769328999143e-7          , 4.82522818753304844e-7          , 3.77028502378906415e-7          , 3.04593852201900726e-7          , 2.52803550264387182e-7          , 2.14483871200574935e-7          , 1.85293782409150713e-7          , 1.6249819143612387e-7           , 1.44311679852135725e-7          , 1.29531773355855345e-7          , 1.17325896177269801e-7          , 1.07103235716982581e-7          , 9.84352384724293001e-8          , 9.10048769701201069e-8          , 8.45734447905704197e-8          , 7.89583183591552723e-8          , 7.40177486943913502e-8          , 6.96402604311719205e-8          , 6.57371322152209671e-8          , 6.22369766814224128e-8          , 5.90817757917581868e-8          , 5.62239410730658247e-8          , 5.36241062603163184e-8          , 5.12494504792361157e-8          , 4.90724106187014484e-8          , 4.70696825748749427e-8          , },
+/* x = 13.1        */  {0.244855102793877416            , 0.00934553654821575925          , 0.00107002154251995245          , 0.000204124522212795373         , 0.0000544590238498108444        , 0.00001862923603144176          , 7.74337273745556758e-6          , 3.76406927337400342e-6          , 2.07693925481246422e-6          , 1.26957010333161843e-6          , 8.42618371709055775e-7          , 5.97318900052163451e-7          , 4.46301682315888188e-7          , 3.47798146311973887e-7          , 2.80355699461824661e-7          , 2.3225513968967276e-7           , 1.96743462055586515e-7          , 1.69744413103468174e-7          , 1.48695566186942643e-7          , 1.31927684137152249e-7          , 1.18318666291047666e-7          , 1.07092927229368911e-7          , 9.77009636007394783e-8          , 8.9744760973656018e-8           , 8.29302725663490073e-8          , 7.70363637873134545e-8          , 7.18940430774617301e-8          , 6.73722770451138489e-8          , 6.33681149983882763e-8          , 5.9799691999413851e-8           , 5.66011909710659678e-8          , 5.37191612485318771e-8          , 5.11097913791610461e-8          , 4.87368631725946239e-8          , 4.65701987801660667e-8          , 4.45844691338919752e-8          , 4.27582703810244806e-8          , },
+/* x = 13.2        */  {0.243925865451385581            , 0.00923954601705257573          , 0.00104987831249849035          , 0.00019877049095813901          , 0.0000526341983147496652        , 0.0000178733781679986773        , 7.37714237312134633e-6          , 3.56258521412862104e-6          , 1.95409761417982609e-6          , 1.188221903161937e-6            , 7.85061172821776374e-7          , 5.54381948169522618e-7          , 4.12885742815042176e-7          , 3.20891756545232866e-7          , 2.58086220800734114e-7          , 2.13405272940885703e-7          , 1.80490994832785987e-7          , 1.55515213329546621e-7          , 1.36076942005766098e-7          , 1.20615365781493897e-7          , 1.08083260147589213e-7          , 9.77580480480776892e-8          , 8.9128593503236132e-8           , 8.18252087145348176e-8          , 7.55751368182283968e-8          , 7.01735040345183594e-8          , 6.54639207643382415e-8          , 6.13252501109098503e-8          , 5.76624075196263263e-8          , 5.43998496604846153e-8          , 5.14768913782835435e-8          , 4.88442869883859621e-8          , 4.64617001017579114e-8          , 4.42958071603165716e-8          , 4.23188591727008918e-8          , 4.05075789899414689e-8          , 3.88423072236339976e-8          , },
+/* x = 13.3        */  {0.243007127330657544            , 0.00913554333975368832          , 0.00103026148594179063          , 0.000193595223176673642         , 0.0000508831604897474145        , 0.0000171531560600861828        , 7.03045952825239639e-6          , 3.37298799465589797e-6          , 1.8391100267069249e-6           , 1.11242019716479158e-6          , 7.31634982582585447e-7          , 5.14655692661655158e-7          , 3.82052169991872235e-7          , 2.96120715803102959e-7          , 2.37622786362763636e-7          , 1.96111563725033017e-7          , 1.656001979714946e-7            , 1.42492982091167466e-7          , 1.24539893374308051e-7          , 1.10281309978012432e-7          , 9.87397699138427698e-8          , 8.92420059035070068e-8          , 8.13125204667869967e-8          , 7.46079026906446494e-8          , 6.88751209408282459e-8          , 6.39243502506134162e-8          , 5.9610851629587107e-8           , 5.58226288320996049e-8          , 5.24718562530530486e-8          , 4.9488819435705135e-8           , 4.68175615515915708e-8          , 4.44127084666473174e-8          , 4.22371212016734517e-8          , 4.0260137920094255e-8           , 3.8456241774889019e-8           , 3.68040403395892906e-8          , 3.52854757397207688e-8          , },
+/* x = 13.4        */  {0.242098692248834791            , 0.00903347675763890478          , 0.00101115354958226012          , 0.000188591515067132736         , 0.000049202442587977086         , 0.0000164666731037183031        , 6.70217388167007779e-6          , 3.19451926677491648e-6          , 1.73144197348807827e-6          , 1.04176751631171944e-6          , 6.8203129469326193e-7           , 4.77892278970718317e-7          , 3.53596205379972824e-7          , 2.73311978446122052e-7          , 2.18816392011270365e-7          , 1.80243703588939961e-7          , 1.51955623101264522e-7          , 1.30574307843226851e-7          , 1.13990920237675006e-7          , 1.00840296143683791e-7          , 9.02099790097170989e-8          , 8.14725756438489343e-8          , 7.41856955426214388e-8          , 6.80303054953251913e-8          , 6.27716509752624767e-8          , 5.82338352852467069e-8          , 5.42828913210571803e-8          , 5.08152659654022739e-8          , 4.77498326848460989e-8          , 4.50222518989917172e-8          , 4.25809235036291679e-8          , 4.03840381185869263e-8          , 3.83973988555121919e-8          , 3.65927915472030917e-8          , 3.49467508029611018e-8          , 3.34396154201890452e-8          , 3.20547978615736042e-8          , },
+/* x = 13.5        */  {0.241200369112546835            , 0.00893329622790594262          , 0.000992537693504868288         , 0.000183752500312516939         , 0.0000475887608556012774        , 0.000015812144022741756         , 6.39120833939908265e-6          , 3.02647219725199963e-6          , 1.63059718045910778e-6          , 9.75896036348916591e-7          , 6.35965392749827069e-7          , 4.43863487457862373e-7          , 3.2732967130173149e-7           , 2.52306766524414921e-7          , 2.0153050406574513e-7           , 1.6568242709342683e-7           , 1.39451709389338791e-7          , 1.19664715683855398e-7          , 1.0434466527966128e-7           , 9.22145751467919632e-8          , 8.24225683089186e-8             , 7.43839338622806754e-8          , 6.76870396182957288e-8          , 6.20354702384897567e-8          , 5.72114079564790444e-8          , 5.30518482771625485e-8          , 4.94327842870816893e-8          , 4.62584622530090803e-8          , 4.34539384270894465e-8          , 4.09598297762968179e-8          , 3.8728550756201033e-8           , 3.67215744349695797e-8          , 3.49074112229258946e-8          , 3.32600978928184736e-8          , 3.17580545346204951e-8          , 3.03832102409159183e-8          , 2.91203274341091051e-8          , },
+/* x = 13.6        */  {0.240311971749784688            , 0.00883495335495237983          , 0.000974397778300631719         , 0.000179071632221441246         , 0.0000460390047966960297        , 0.0000151878877974377777        , 6.0965540695536339e-6           , 2.86818778765590175e-6          , 1.53611476966477255e-6          , 9.14465294277368397e-7          , 5.9317446732769436e-7           , 4.12359144629590757e-7          , 3.03079604651613032e-7          , 2.32959376335794589e-7          , 1.85640002981975771e-7          , 1.52318566416197956e-7          , 1.27991929372993517e-7          , 1.09677889314414452e-7          , 9.55232002223453265e-8          , 8.43332105981641222e-8          , 7.53125049033708754e-8          , 6.79160890103490049e-8          , 6.17609098341284653e-8          , 5.65715390654069111e-8          , 5.21458550043166126e-8          , 4.83327873255441567e-8          , 4.50175394722808469e-8          , 4.21115629439033797e-8          , 3.9545620660219593e-8           , 3.72649006498457295e-8          , 3.52255168523597457e-8          , 3.33919650013688064e-8          , 3.17352468797618326e-8          , 3.02314693833752266e-8          , 2.88607856150524716e-8          , 2.76065855691877788e-8          , 2.64548711564565932e-8          , },
+/* x = 13.7        */  {0.239433318748480856            , 0.00873840132489473074          , 0.000956718303953246637         , 0.000174542666912445213         , 0.0000445502270810905894        , 0.0000145923210717000351        , 5.81726589136737381e-6          , 2.71905146797596774e-6          , 1.44756662972281653e-6          , 8.57160085403413779e-7          , 5.53415885307683154e-7          , 3.83185665190766528e-7          , 2.80687004896105356e-7          , 2.15136086028039801e-7          , 1.71030217427836906e-7          , 1.40052187597552077e-7          , 1.17488009134663176e-7          , 1.00534961175530709e-7          , 8.74553750331836287e-8          , 7.71314785034106163e-8          , 6.88204852700244766e-8          , 6.20143624392941666e-8          , 5.63566138560330579e-8          , 5.15912867988008843e-8          , 4.75308070915802257e-8          , 4.4035152636974003e-8           , 4.09980444982237509e-8          , 3.83375909916611468e-8          , 3.59898226024459743e-8          , 3.39041431790174146e-8          , 3.2040075997360733e-8           , 3.03649003870314357e-8          , 2.88519109178334698e-8          , 2.74791184096654073e-8          , 2.62282689128919311e-8          , 2.50840945166131339e-8          , 2.40337352352258806e-8          , },
+/* x = 13.8        */  {0.23856423330148461             , 0.00864359484311643504          , 0.000939484380357909516         , 0.000170159647475309605         , 0.0000431196340889914761        , 0.0000140239520047072752        , 5.55245799205715709e-6          , 2.57848994296161418e-6          , 1.36455498816745369e-6          , 8.03688526371167455e-7          , 5.16465598914843867e-7          , 3.56164713993088054e-7          , 2.60005686624584577e-7          , 1.98714155601888533e-7          , 1.57596040951032589e-7          , 1.28791801325270079e-7          , 1.07859216307278316e-7          , 9.21638647513657068e-8          , 8.0076224467221334e-8           , 7.0550320082778929e-8           , 6.28924279791988157e-8          , 5.66289158023427727e-8          , 5.14279676992118953e-8          , 4.7051705632682767e-8           , 4.3326039628028954e-8           , 4.012117647720753e-8            , 3.73387148309816344e-8          , 3.49029135883889748e-8          , 3.27546658101051702e-8          , 3.08472637744023111e-8          , 2.91433728872190375e-8          , 2.76128360549953032e-8          , 2.62310579877613472e-8          , 2.49778006594926322e-8          , 2.38362743907070812e-8          , 2.27924442737789016e-8          , 2.18344953781090976e-8          , },
+/* x = 13.9        */  {0.23770454305763765             , 0.00855049007468632202          , 0.000922681699377736262         , 0.000165916889047869905         , 0.0000417445770495392581        , 0.0000134813745355379628        , 5.30129994723092206e-6          , 2.44596827180230322e-6          , 1.28671016975311478e-6          , 7.53780270787949417e-7          , 4.82116682988240342e-7          , 3.31131977872485243e-7          , 2.4090122781184184e-7           , 1.83580911417197431e-7          , 1.45241124113898316e-7          , 1.18453641777161646e-7          , 9.90317099710091219e-8          , 8.4498743566379266e-8           , 7.3326426867817154e-8           , 6.45358430291826356e-8          , 5.74790115194304087e-8          , 5.17143206618233571e-8          , 4.69328931856275873e-8          , 4.29136271746505036e-8          , 3.94949323493027425e-8          , 3.65564865905711135e-8          , 3.40071747561571712e-8          , 3.17769389992220375e-8          , 2.98111614050091595e-8          , 2.8066720941998729e-8           , 2.6509179053236244e-8           , 2.51107397248004839e-8          , 2.38487498116716928e-8          , 2.27045820093777915e-8          , 2.16627926881422518e-8          , 2.07104797692035232e-8          , 1.9836787975377436e-8           , },
+/* x = 14.0        */  {0.23685407997867067             , 0.00845904458749827022          , 0.000906296508349132396         , 0.000161808964750948515         , 0.0000404225437334834298        , 0.0000129632630315088322        , 5.06301302241048521e-6          , 2.32098716329402642e-6          , 1.21368852608238673e-6          , 7.0718486515346452e-7           , 4.50177989957580642e-7          , 3.07936038214486629e-7          , 2.23250005708200878e-7          , 1.69632907985766216e-7          , 1.3387713558971857e-7           , 1.08961007607081095e-7          , 9.09379470255695017e-8          , 7.74794118835794882e-8          , 6.71518106007755073e-8          , 5.90388668973259245e-8          , 5.25352532104336847e-8          , 4.72291665187218996e-8          , 4.28330514714812071e-8          , 3.91413784683245156e-8          , 3.60041453181315839e-8          , 3.33098000530314188e-8          , 3.09739672714655169e-8          , 2.89318409387180183e-8          , 2.713294759021154e-8            , 2.55374747692317821e-8          , 2.41136532957538307e-8          , 2.28358618549077066e-8          , 2.16832349198434869e-8          , 2.06386268102235273e-8          , 1.96878313279074446e-8          , 1.88189872329302068e-8          , 1.80221205155170286e-8          , },
+/* x = 14.1        */  {0.236012680201655776            , 0.00836921729799136738          , 0.000890315584953010131         , 0.000157830692427866462         , 0.0000391511506629733622        , 0.0000124683672931753134        , 4.83686673495432719e-6          , 2.20308047004219264e-6          , 1.14517052309987477e-6          , 6.63670233811398938e-7          , 4.20472912879438254e-7          , 2.86437335859992279e-7          , 2.06938312963241183e-7          , 1.56775160456191792e-7          , 1.23423086280168699e-7          , 1.00243659677605362e-7          , 8.35161400989129496e-8          , 7.10508625548832014e-8          , 6.15029039079606735e-8          , 5.401450870135191e-8            , 4.80201255367483487e-8          , 4.31357038223496894e-8          , 3.90935094022913329e-8          , 3.57024689321520894e-8          , 3.28233241345647924e-8          , 3.03526448006118359e-8          , 2.82122902700277509e-8          , 2.63423079820939624e-8          , 2.46960510566931517e-8          , 2.32367592558542053e-8          , 2.19351240028006048e-8          , 2.07675271260431148e-8          , 1.97147485717835169e-8          , 1.87610056010463667e-8          , 1.78932296472938124e-8          , 1.71005158314486525e-8          , 1.63736994615756479e-8          , },
+/* x = 14.2        */  {0.235180183906763438            , 0.00828096841931792397          , 0.000874726213373921629         , 0.00015397712213856375          , 0.0000379281358040686134        , 0.0000119955078909232354        , 4.62217565724499845e-6          , 2.09181286654180796e-6          , 1.08085897407498189e-6          , 6.23021282566093604e-7          , 3.92838247688667067e-7          , 2.66507220671280797e-7          , 1.91861547219782555e-7          , 1.44920441763976412e-7          , 1.13804711029215822e-7          , 9.22372706144234176e-8          , 7.67097624876581751e-8          , 6.51628178765875354e-8          , 5.63345243409482382e-8          , 4.94218051485017971e-8          , 4.38962065631667716e-8          , 3.93995188271902768e-8          , 3.56824357454770468e-8          , 3.25673054277758216e-8          , 2.99248317150644311e-8          , 2.76591063253705405e-8          , 2.56977566266290067e-8          , 2.39853157328768867e-8          , 2.24786701024857393e-8          , 2.11438754029596256e-8          , 1.99538913513022583e-8          , 1.88869450011198585e-8          , 1.79253310096097645e-8          , 1.70545204657394691e-8          , 1.6262490732637699e-8           , 1.55392157096608261e-8          , 1.48762739784607351e-8          , },
+/* x = 14.3        */  {0.234356435190085478            , 0.00819425941183424286          , 0.000859516161674006871         , 0.000150243524361674906         , 0.0000367513517099857443        , 0.0000115435718099209666        , 4.4182964434614888e-6           , 1.98677769716319235e-6          , 1.02047740668936476e-6          , 5.85038611454096077e-7          , 3.67123146555796235e-7          , 2.4802707872516321e-7           , 1.7792346799114338e-7           , 1.33988638938689908e-7          , 1.04953902979460643e-7          , 8.48829216878428495e-8          , 7.04670960206669649e-8          , 5.97693196695789056e-8          , 5.16054042763359635e-8          , 4.52233682549782347e-8          , 4.01293613920313991e-8          , 3.59892374454977001e-8          , 3.25708246162359428e-8          , 2.97089329230267232e-8          , 2.72835042395175823e-8          , 2.52055972588919018e-8          , 2.34081760164837012e-8          , 2.18399196762791266e-8          , 2.04609774847307281e-8          , 1.92400031642516911e-8          , 1.81520475719858963e-8          , 1.71770376139540746e-8          , 1.62986623617850896e-8          , 1.55035464120271918e-8          , 1.47806287927891157e-8          , 1.41206909290348197e-8          , 1.35159940499796873e-8          , },
+/* x = 14.4        */  {0.233541281941297795            , 0.00810905293579612936          , 0.000844673660313163841         , 0.000146625378860991311         , 0.000035618759085335754         , 0.0000111115083819011224        , 4.22462506359871135e-6          , 1.88759498116367319e-6          , 9.63768553756445764e-7          , 5.49537327937156881e-7          , 3.43188154914462533e-7          , 2.30887530692161576e-7          , 1.65035515161467237e-7          , 1.23906163533584067e-7          , 9.68081960464343751e-8          , 7.81266429193450372e-8          , 6.47408180982720955e-8          , 5.48283551379694217e-8          , 4.72778493249815957e-8          , 4.13850713803770568e-8          , 3.66884518946265767e-8          , 3.28762555003552027e-8          , 2.97322436543685387e-8          , 2.7102798443650154e-8           , 2.48764290827117164e-8          , 2.29706477702574409e-8          , 2.13233564935301973e-8          , 1.98870668363764114e-8          , 1.86249412059459314e-8          , 1.75080305371339682e-8          , 1.65133136257445945e-8          , 1.56222833993389049e-8          , 1.48199126697531667e-8          , 1.40938873008505566e-8          , 1.343403055165026e-8            , 1.28318659303613936e-8          , 1.22802816592430257e-8          , },
+/* x = 14.5        */  {0.232734575725947972            , 0.00802531280614777255          , 0.000830187381751060337         , 0.00014311836417561151          , 0.0000345284207436797477        , 0.0000106983254838120635        , 4.04059422963326932e-6          , 1.7939095628505039e-6           , 9.10492957937574842e-7          , 5.16345952495547733e-7          , 3.20904325339569615e-7          , 2.1498769550217496e-7           , 1.53116183930418483e-7          , 1.14605411575606e-7             , 8.93102913783956526e-8          , 7.19189926691581327e-8          , 5.94876244888280703e-8          , 5.03015153642564912e-8          , 4.33174267303823833e-8          , 3.78757629812503484e-8          , 3.35450721965819143e-8          , 3.00344930169644968e-8          , 2.71426047297098375e-8          , 2.4726536216174297e-8           , 2.26827427445622029e-8          , 2.09347148936434436e-8          , 1.94249240347561223e-8          , 1.8109424526696083e-8           , 1.69541616000136721e-8          , 1.59323982287203874e-8          , 1.50228907905729235e-8          , 1.42085750226572503e-8          , 1.34756056503282309e-8          , 1.28126449897740321e-8          , 1.2210329370585244e-8           , 1.16608642759480607e-8          , 1.11577138284284218e-8          , },
+/* x = 14.6        */  {0.231936171672163723            , 0.00794300394929886756          , 0.000816046421070541517         , 0.000139718347695750589         , 0.0000334784959326528671        , 0.000010303085984831692         , 3.86567099987528124e-6          , 1.70538939594480332e-6          , 8.60427681588412691e-7          , 4.8530540925385673e-7           , 3.00152402021673926e-7          , 2.00234513892628535e-7          , 1.42090451463700585e-7          , 1.06024268828839569e-7          , 8.24076240269955182e-8          , 6.62146732874133838e-8          , 5.46678847643635505e-8          , 4.61536835764930802e-8          , 3.96926811091389926e-8          , 3.46670056249227228e-8          , 3.06733076226570878e-8          , 2.74401704020048417e-8          , 2.47799551539660606e-8          , 2.25597720937696406e-8          , 2.06834469731771879e-8          , 1.90800090717562666e-8          , 1.76961584201770675e-8          , 1.64912246396912793e-8          , 1.54337232326240116e-8          , 1.4498958474971556e-8           , 1.36673257956480336e-8          , 1.29230902994565352e-8          , 1.22534949340877566e-8          , 1.16481004768940054e-8          , 1.10982909301883267e-8          , 1.05968985408423055e-8          , 1.01379164249796049e-8          , },
+/* x = 14.7        */  {0.231145928361588385            , 0.00786209236179070739          , 0.00080224027756566445          , 0.000136421376288664453         , 0.0000324672350026892464        , 9.92490442457877181e-6          , 3.69935454859793071e-6          , 1.62172395204713512e-6          , 8.13365113575499995e-7          , 4.5626809487061813e-7           , 2.80822070100490394e-7          , 1.86542126888536442e-7          , 1.31889250913231676e-7          , 9.81056575252879257e-8          , 7.60519663807975206e-8          , 6.09721797093809936e-8          , 5.02453275307307454e-8          , 4.23527505757410787e-8          , 3.6374875121211254e-8           , 3.17328380237241331e-8          , 2.80495150114936838e-8          , 2.5071604553874631e-8           , 2.2624287558819124e-8           , 2.05839455292358399e-8          , 1.88612414383250881e-8          , 1.73903363568232119e-8          , 1.61218439663488748e-8          , 1.50181220622164448e-8          , 1.40500602664822305e-8          , 1.31948467211619134e-8          , 1.24343882639872791e-8          , 1.17541749155067054e-8          , 1.1142451635700529e-8           , 1.05896059433063775e-8          , 1.00877094086462722e-8          , 9.63017032684577881e-9          , 9.2114677421334493e-9           , },
+/* x = 14.8        */  {0.23036370772435927             , 0.00778254507075747574          , 0.000788758837241028334         , 0.000133223667441457877         , 0.0000314929743970343449        , 9.56294390659866817e-6          , 3.54117408900664945e-6          , 1.54262274388844313e-6          , 7.69111865551963534e-7          , 4.29097019472799115e-7          , 2.62811264594414084e-7          , 1.73831304678857077e-7          , 1.22448988838688733e-7          , 9.07971210465774335e-8          , 7.01990652117927168e-8          , 5.61534781470764359e-8          , 4.6186752857123082e-8           , 3.88693549424505209e-8          , 3.33377528715284441e-8          , 2.90495580492576401e-8          , 2.56521224977203269e-8          , 2.29090231222299702e-8          , 2.06573667657892714e-8          , 1.87821475159456394e-8          , 1.7200371461517526e-8           , 1.58509548522240705e-8          , 1.46881337660439631e-8          , 1.36770659328312081e-8          , 1.27908340647699378e-8          , 1.20083649899783841e-8          , 1.13129593385202154e-8          , 1.0691235866932664e-8           , 1.01323622171699847e-8          , 9.62748669349738918e-9          , 9.16931319174995908e-9          , 8.75177946764259767e-9          , 8.36981095317899151e-9          , },
+/* x = 14.9        */  {0.229589374937953857            , 0.00770433009609414317          , 0.000775592356172283189         , 0.000130121600889698841         , 0.0000305541319422651482        , 9.21641319234885436e-6          , 3.39068693850493034e-6          , 1.46781395477092687e-6          , 7.27487750777631851e-7          , 4.03665013920445224e-7          , 2.46025534097247833e-7          , 1.62028921733279553e-7          , 1.13711102398488454e-7          , 8.40504433413334741e-8          , 6.480830945723255e-8            , 5.17237122774922865e-8          , 4.2461769537308291e-8           , 3.56766458503590534e-8          , 3.05573240393319818e-8          , 2.65955248679466281e-8          , 2.34614470288404256e-8          , 2.0934395295033008e-8           , 1.88625721240250179e-8          , 1.71389730600889931e-8          , 1.56864894440841901e-8          , 1.44484441063641444e-8          , 1.33824262091979045e-8          , 1.24561825737253399e-8          , 1.16448219182691235e-8          , 1.09288758708344373e-8          , 1.0292930469421409e-8           , 9.72464463906819248e-9          , 9.21403570036316493e-9          , 8.7529520850044265e-9           , 8.33467923841687127e-9          , 7.95364157920437271e-9          , 7.60517462191398159e-9          , },
+/* x = 15.0        */  {0.228822798329737351            , 0.00762741641424722832          , 0.000762731444680706105         , 0.000127111710702767623         , 0.0000296492024199623846        , 8.88456398197198784e-6          , 3.24747671603966802e-6          , 1.39704316626712861e-6          , 6.88324839116836781e-7          , 3.79853998149479983e-7          , 2.30377454811276463e-7          , 1.51067474351165998e-7          , 1.05621652985833072e-7          , 7.7821300138133367e-8           , 5.9842426107592504e-8           , 4.76509345539452276e-8          , 3.90425550223492089e-8          , 3.27500665078566036e-8          , 2.80116669091051779e-8          , 2.43509785045021931e-8          , 2.14595280391253247e-8          , 1.91312776367437509e-8          , 1.722475392927185e-8            , 1.56403868771802487e-8          , 1.430652875752153e-8            , 1.3170586287224306e-8           , 1.21932526715537939e-8          , 1.1344669036350843e-8           , 1.06018158832490193e-8          , 9.94670616144561034e-9          , 9.3651114341155074e-9           , 8.8456492326406721e-9           , 8.37911937181788513e-9          , 7.95801462221122483e-9          , 7.57615530621087585e-9          , 7.22841318755748817e-9          , 6.91050052715852905e-9          , },
+/* x = 15.1        */  {0.228063849283053361            , 0.0075517739235492552           , 0.000750167052277546739         , 0.000124190677798737736         , 0.0000287767534015003334        , 8.56668836912744767e-6          , 3.11115166207112066e-6          , 1.33007217685663867e-6          , 6.51466582350844353e-7          , 3.5755430576524084e-7           , 2.1578609085051309e-7           , 1.40884637152539545e-7          , 9.8130953266699633e-8           , 7.20689392653447086e-8          , 5.5267201798351871e-8           , 4.39058604734478023e-8          , 3.59036360537351406e-8          , 3.00671564211648679e-8          , 2.56807486386321109e-8          , 2.22978752905730952e-8          , 1.96299758436513274e-8          , 1.7484673633629927e-8           , 1.57301026619869614e-8          , 1.42736011236865111e-8          , 1.30485889721584567e-8          , 1.20062580722411838e-8          , 1.11101753586165479e-8          , 1.03326962964435897e-8          , 9.65253080961313927e-9          , 9.05305928125391757e-9          , 8.5211467463543215e-9           , 8.04629422760042993e-9          , 7.62002220148167079e-9          , 7.23541646497443622e-9          , 6.88678931454326488e-9          , 6.56942373673525329e-9          , 6.27937812761994555e-9          , },
+/* x = 15.2        */  {0.227312402146707067            , 0.00747737341102203401          , 0.000737890453336475963         , 0.000121355322863327206         , 0.0000279354213291466341        , 8.26211645806207057e-6          , 2.98134307241611889e-6          , 1.26667790474265735e-6          , 6.1676700440483876e-7           , 3.36664060448996609e-7          , 2.02176497082176763e-7          , 1.31422855312268093e-7          , 9.11932248338619781e-8          , 6.67558876188745874e-8          , 5.10512279104227586e-8          , 4.04616438213650659e-8          , 3.30216881983406265e-8          , 2.76073708326473249e-8          , 2.35462612470359991e-8          , 2.04197377930121701e-8          , 1.79578334439050209e-8          , 1.59809057226099954e-8          , 1.43660298960351252e-8          , 1.30269640818690341e-8          , 1.19018314018119279e-8          , 1.09453322847375812e-8          , 1.01236943845017975e-8          , 9.41132122190241025e-9          , 8.78852072275890023e-9          , 8.2399356567268196e-9           , 7.7534396879644855e-9           , 7.31934814911419797e-9          , 6.92984526846817352e-9          , 6.57856267163385794e-9          , 6.26026518969429227e-9          , 5.97061384395211085e-9          , 5.70598505552098267e-9          , },
+/* x = 15.3        */  {0.226568334147697597            , 0.0074041865205779353           , 0.000725893233454935599         , 0.000118602599649081746         , 0.0000271239078278037794        , 7.97021413194305371e-6          , 2.8577038378626477e-6           , 1.20665136860908003e-6          , 5.84089951515020565e-7          , 3.17088600097345701e-7          , 1.894792610808169e-7            , 1.22628969605247835e-7          , 8.47662839262787266e-8          , 6.18476825287711438e-8          , 4.71656671732107751e-8          , 3.72936710864882782e-8          , 3.03753526439400477e-8          , 2.53519158324656997e-8          , 2.15914719398604028e-8          , 1.870151794111973e-8            , 1.64294505531731473e-8          , 1.46074986896577737e-8          , 1.31210598326376831e-8          , 1.18898588134681234e-8          , 1.08563840345238769e-8          , 9.97858839591826161e-9          , 9.2251632488647117e-9           , 8.57240651677315541e-9          , 8.00210279888733277e-9          , 7.50006035163420927e-9          , 7.05508326698847002e-9          , 6.65823746763808845e-9          , 6.30231855178524209e-9          , 5.98146055847939775e-9          , 5.69084459612903546e-9          , 5.42647922733112033e-9          , 5.18503308378883591e-9          , },
+/* x = 15.4        */  {0.22583152530706318             , 0.00733218572255213047          , 0.000714167276467494488         , 0.000115929588632464651         , 0.0000263409762327821871        , 7.69038096225579517e-6          , 2.73990708205365435e-6          , 1.14979674055637383e-6          , 5.53308397752740735e-7          , 2.98739944942707784e-7          , 1.77630081050332959e-7          , 1.14453871574538941e-7          , 7.88112528783507436e-8          , 5.7312625467453761e-8           , 4.3584039937014896e-8           , 3.43793733965012738e-8          , 2.79450687574787902e-8          , 2.32835977738833548e-8          , 1.98010865105430086e-8          , 1.71294721860032003e-8          , 1.5032368756264028e-8           , 1.33530734235594934e-8          , 1.19847305081774502e-8          , 1.08526108865841723e-8          , 9.90325500351504382e-9          , 9.09763109126767523e-9          , 8.40671195108632098e-9          , 7.80854791709033317e-9          , 7.28628824281738876e-9          , 6.82681728179864964e-9          , 6.41979746964050579e-9          , 6.05698662619734101e-9          , 5.73174350289739393e-9          , 5.43866461451746283e-9          , 5.17331401335965128e-9          , 4.93201978443581778e-9          , 4.71171906278410104e-9          , },
+/* x = 15.5        */  {0.225101858358709184            , 0.00726134428450235234          , 0.000702704752076477271         , 0.000113333491007939508         , 0.000025585448319977902         , 7.42204824979159741e-6          , 2.6276448906918056e-6           , 1.09593046589457661e-6          , 5.24303801682485528e-7          , 2.81536306204537295e-7          , 1.66569376826600348e-7          , 1.06852186357968048e-7          , 7.32922951603763638e-8          , 5.31215562176713313e-8          , 4.02820284392105846e-8          , 3.16980544669519074e-8          , 2.57129210391584292e-8          , 2.13866857429235593e-8          , 1.81611246690557017e-8          , 1.56910476288213915e-8          , 1.37552168149173047e-8          , 1.22072501016132796e-8          , 1.09475038099281677e-8          , 9.90640436081192657e-9          , 9.03425382892137822e-9          , 8.29481617275966803e-9          , 7.66117704997242727e-9          , 7.11300798022389746e-9          , 6.63471944034569472e-9          , 6.21418941413247661e-9          , 5.84187223136188051e-9          , 5.51016354359602861e-9          , 5.21294087048232188e-9          , 4.9452264619275193e-9           , 4.70293666734019256e-9          , 4.48269334789920846e-9          , 4.28168036900793473e-9          , },
+/* x = 15.6        */  {0.224379218671095322            , 0.00719163624321610007          , 0.000691498104067157072         , 0.000110811622999448263         , 0.0000248562012257416113        , 7.16467718841906844e-6          , 2.52062712562853162e-6          , 1.04488044487728669e-6          , 4.9696551026152994e-7           , 2.65401632097642395e-7          , 1.56241931309475617e-7          , 9.97819809134430033e-8          , 6.8176372051590475e-8           , 4.92476457785319108e-8          , 3.72372975327177993e-8          , 2.92307331874759591e-8          , 2.36624992247496306e-8          , 1.96467859428580626e-8          , 1.66588062500149339e-8          , 1.43747781490700736e-8          , 1.25876152184027761e-8          , 1.11605599665047297e-8          , 1.00006835115428564e-8          , 9.0432052890981501e-9           , 8.24191973038611535e-9          , 7.56318313427414732e-9          , 6.98203804001330954e-9          , 6.47965586926728044e-9          , 6.0416128144273772e-9           , 5.6567044045767386e-9           , 5.31611560482247826e-9          , 5.01283009277579866e-9          , 4.74120329632400833e-9          , 4.49664939940686812e-9          , 4.27540887053506117e-9          , 4.07437368805618477e-9          , 3.89095445039816868e-9          , },
+/* x = 15.7        */  {0.223663494171664143            , 0.0071230363778683881           , 0.000680540039076700873         , 0.000108361410470915524         , 0.0000241521645445748973        , 6.91775714345277641e-6          , 2.41858031787336447e-6          , 9.96485271834294324e-7          , 4.71190206393551547e-7          , 2.50265188278136307e-7          , 1.46596559889416992e-7          , 9.32044955707280431e-8          , 6.34330191519060099e-8          , 4.56662064344189162e-8          , 3.4429330476828486e-8           , 2.69599995882525419e-8          , 2.17787703974182332e-8          , 1.80507269540734209e-8          , 1.52824473450851418e-8          , 1.31701896500399353e-8          , 1.15200891590656433e-8          , 1.02043649288151305e-8          , 9.13634061089663476e-9          , 8.25569206157491356e-9          , 7.51945637379377896e-9          , 6.89639380761142964e-9          , 6.36335947233396921e-9          , 5.90291258843325128e-9          , 5.50170686646281981e-9          , 5.14938517934663857e-9          , 4.83780665046354769e-9          , 4.56049709940701054e-9          , 4.31225224540590401e-9          , 4.0888471081046969e-9           , 3.8868203657999495e-9           , 3.70331237207962538e-9          , 3.53594209110691478e-9          , },
+/* x = 15.8        */  {0.222954575273898488            , 0.00705552018427612962          , 0.000669823515887835339         , 0.000105980383818556473         , 0.0000234723175935792143        , 6.68080403700698701e-6          , 2.32124663399635182e-6          , 9.50593527505077022e-7          , 4.4688139682860809e-7           , 2.36061170040955627e-7          , 1.37585805632468899e-7          , 8.7083897009167949e-8           , 5.9034141089200099e-8           , 4.23545175455019866e-8          , 3.18392785106460108e-8          , 2.48698830384998296e-8          , 2.00479620696631335e-8          , 1.65864549210994844e-8          , 1.40213654888082992e-8          , 1.20677136168913725e-8          , 1.05439891856526529e-8          , 9.33078429808921105e-9          , 8.34724531726887268e-9          , 7.53719197737213836e-9          , 6.86067247292249381e-9          , 6.28867653104628159e-9          , 5.79973830035508425e-9          , 5.37770117489492934e-9          , 5.01021493123675364e-9          , 4.68770500912516643e-9          , 4.40265261855206079e-9          , 4.1490834474536712e-9           , 3.92219887333675909e-9          , 3.71810613844144439e-9          , 3.53361830643788214e-9          , 3.36610412506563827e-9          , 3.21337405340255123e-9          , },
+/* x = 15.9        */  {0.222252354806900806            , 0.00698906385019806433          , 0.000659341735219868953         , 0.00010366617312883599          , 0.0000228156868333173472        , 6.4533588332545861e-6           , 2.22838291080000504e-6          , 9.07063120693074794e-7          , 4.2394893735961745e-7           , 2.22728343797270743e-7          , 1.29165658169429469e-7          , 8.13870509181676681e-8          , 5.49538229169046969e-8          , 3.92916657409537866e-8          , 2.94498230391655734e-8          , 2.29457316281608371e-8          , 1.84574552865628599e-8          , 1.52429378017700431e-8          , 1.28657931038259277e-8          , 1.10586082541280603e-8          , 9.6514188537958285e-9           , 8.53262800771515604e-9          , 7.62680509344228627e-9          , 6.88162348567974451e-9          , 6.25992771907738948e-9          , 5.73477534196556849e-9          , 5.28625597735713793e-9          , 4.89940139747299698e-9          , 4.56278221700401973e-9          , 4.26754666694786534e-9          , 4.00675003112066191e-9          , 3.7748789162916154e-9           , 3.56750847063159635e-9          , 3.3810518311561873e-9           , 3.21257453859048877e-9          , 3.05965537114643769e-9          , 2.92028078588396445e-9          , },
+/* x = 16.0        */  {0.221556727947392236            , 0.00692364423163179741          , 0.000649088129991271031         , 0.000101416503586926122         , 0.0000221813434354301123        , 6.23498611700474223e-6          , 2.13975975351040329e-6          , 8.65760675653624491e-7          , 4.02308592502659633e-7          , 2.10209715557061083e-7          , 1.2129529440202817e-7           , 7.60833127413541395e-8          , 5.11681568228714404e-8          , 3.64583983078914655e-8          , 2.72450493623065767e-8          , 2.11741017746134878e-8          , 1.6995686884179969e-8           , 1.40100778893337457e-8          , 1.1806798481481937e-8           , 1.01348865342366424e-8          , 8.83516875362406054e-9          , 7.80333575560398023e-9          , 6.96900821161600111e-9          , 6.28344358760815423e-9          , 5.7120835593226292e-9           , 5.22990374023592864e-9          , 4.81843487602416393e-9          , 4.46380855343817419e-9          , 4.15544674124501455e-9          , 3.88516529786583485e-9          , 3.64654930796328567e-9          , 3.43451040832816598e-9          , 3.24496815641922945e-9          , 3.07461735774971249e-9          , 2.9207558828116132e-9           , 2.78115566233569364e-9          , 2.65396491583047293e-9          , },
+/* x = 16.1        */  {0.220867592154034052            , 0.00685923883006202239          , 0.000639056356029476272         , 0.0000992291911214425516        , 0.0000215684009879865423        , 6.02527275947042486e-6          , 2.05516069308209545e-6          , 8.26560961898634808e-7          , 3.81881627066718078e-7          , 1.98452224323074761e-7          , 1.13936839292149704e-7          , 7.1144335037389558e-8           , 4.765508288598633e-8            , 3.38369886713806907e-8          , 2.5210330968822318e-8           , 1.9542657179026311e-8           , 1.56520601123793674e-8          , 1.28786318874943825e-8          , 1.08362136376119062e-8          , 9.2892505484608857e-9           , 8.08865634965138303e-9          , 7.13692153430145016e-9          , 6.36837233055162571e-9          , 5.73759993613736485e-9          , 5.21245838718186767e-9          , 4.76970260995998469e-9          , 4.39219863902978914e-9          , 4.0670959918440626e-9           , 3.7846038080814731e-9           , 3.53715466240509186e-9          , 3.31882261337578916e-9          , 3.1249112572895382e-9           , 2.9516575241627608e-9           , 2.79601559439066593e-9          , 2.65549713953337293e-9          , 2.52805172970815912e-9          , 2.41197626950556796e-9          , },
+/* x = 16.2        */  {0.220184847103978547            , 0.00679582577061636423          , 0.000629240283204961328         , 0.0000971021382721129931        , 0.0000209760133301372003        , 5.8238266655212698e-6           , 1.97438139853050329e-6          , 7.89346363350335848e-7          , 3.62594427219425199e-7          , 1.87406458468659478e-7          , 1.07055145140705827e-7          , 6.6543890111393861e-8           , 4.43942427227283186e-8          , 3.1411112954399589e-8           , 2.33322235007138155e-8          , 1.80400763325629435e-8          , 1.44168629001169743e-8          , 1.18401378814258911e-8          , 9.94656844148904038e-9          , 8.51503160461213622e-9          , 7.40587111833987753e-9          , 6.52792307118128698e-9          , 5.819897645528829e-9            , 5.23948721305975384e-9          , 4.75678674901688735e-9          , 4.35020192457303085e-9          , 4.00383610517170657e-9          , 3.70578102556911011e-9          , 3.44697370557530172e-9          , 3.22041644667070732e-9          , 3.02063462987377937e-9          , 2.84329333569874262e-9          , 2.68492196923949088e-9          , 2.54271356959585268e-9          , 2.41437656843397681e-9          , 2.29802391593466418e-9          , 2.1920891878302431e-9           , },
+/* x = 16.3        */  {0.219508394631560686            , 0.00673338378108750879          , 0.000619633986967933336         , 0.0000950333302678456151        , 0.0000204033725081907877        , 5.63027559711096507e-6          , 1.8972289405006438e-6           , 7.54006384006403118e-7          , 3.44378148840380951e-7          , 1.77026393324749951e-7          , 1.00617587891736849e-7          , 6.22577066818050938e-8          , 4.13668449626346436e-8          , 2.91657366922158992e-8          , 2.15983675702515798e-8          , 1.66559678416462588e-8          , 1.32811931040308665e-8          , 1.08868486053187368e-8          , 9.13103046891190217e-9          , 7.80613556595437436e-9          , 6.7813245144967124e-9           , 5.97135574216985988e-9          , 5.31902420287350303e-9          , 4.7849073996834313e-9           , 4.34118220507648757e-9          , 3.9677858941447888e-9           , 3.64996848778394027e-9          , 3.37669392493622878e-9          , 3.13957233042530082e-9          , 2.93213235995749603e-9          , 2.74931599195903342e-9          , 2.58712170582433321e-9          , 2.44234845298482258e-9          , 2.31240924982778196e-9          , 2.1951936146881477e-9           , 2.08896477036363237e-9          , 1.99228192626350068e-9          , },
+/* x = 16.4        */  {0.21883813866904588             , 0.00667189217178238967          , 0.000610231740267185078         , 0.0000930208313034276509        , 0.0000198497068457468023        , 5.44426606793362127e-6          , 1.82352110255400584e-6          , 7.20437187490964434e-7          , 3.27168391123964147e-7          , 1.6726914834173622e-7           , 9.45938791156873689e-8          , 5.82633194491156178e-8          , 3.85555415802200222e-8          , 2.70870108538737218e-8          , 1.99973996815898782e-8          , 1.53807929045019508e-8          , 1.22368901384487193e-8          , 1.00116704594623554e-8          , 8.38335007874207184e-9          , 7.1569929699699444e-9           , 6.21000433934101677e-9          , 5.46267056141887822e-9          , 4.86159300739540494e-9          , 4.37003359251069331e-9          , 3.96210351675488121e-9          , 3.61916124458983835e-9          , 3.32751951145241689e-9          , 3.07694971367486627e-9          , 2.85968447419741351e-9          , 2.66973876618323439e-9          , 2.50243913738927889e-9          , 2.35409158177754667e-9          , 2.22174348029094385e-9          , 2.10301044879478258e-9          , 1.9959486759392668e-9           , 1.8989596079685039e-9           , 1.81071794717442973e-9          , },
+/* x = 16.5        */  {0.218173985189353034            , 0.00661133081616119003          , 0.000601028005831812325         , 0.0000910627810037969175        , 0.0000193142791209943962        , 5.26546230470261263e-6          , 1.75308573690804213e-6          , 6.88541168061854514e-7          , 3.10904893550438455e-7          , 1.58094762321033486e-7          , 8.89558924344329557e-8          , 5.45399305260528294e-8          , 3.59443141919959509e-8          , 2.5162176395046972e-8           , 1.85188705728157438e-8          , 1.42057943287366022e-8          , 1.12764724371965446e-8          , 9.20810777770112949e-9          , 7.69781025624820711e-9          , 6.56251350660105956e-9          , 5.68733312103310986e-9          , 4.99771588481844869e-9          , 4.44381058435892715e-9          , 3.9913770464485765e-9           , 3.61632386120407266e-9          , 3.30132834653487463e-9          , 3.03368823969484571e-9          , 2.80392251334782198e-9          , 2.60483952941762155e-9          , 2.4309036185895676e-9           , 2.27779635555866032e-9          , 2.14210739168877522e-9          , 2.02111308827406488e-9          , 1.91261566589289454e-9          , 1.81482472277197686e-9          , 1.726268851755082e-9            , 1.64572893064430681e-9          , },
+/* x = 16.6        */  {0.217515842150675703            , 0.00655168013223079358          , 0.000592017428797560992         , 0.0000891573910654954565        , 0.000018796384844732301         , 5.0935452707600875e-6           , 1.68576016159654093e-6          , 6.58226550825277962e-7          , 2.95531254488655594e-7          , 1.4946598532985968e-7           , 8.36775032503472953e-8          , 5.10682817741412495e-8          , 3.35183695014893079e-8          , 2.33794766319707525e-8          , 1.71531703526327289e-8          , 1.3122931532245344e-8           , 1.03930802452952394e-8          , 8.47021188972708388e-9          , 7.06918080676639215e-9          , 6.01804447272749377e-9          , 5.20913015302917291e-9          , 4.57270249754193895e-9          , 4.06221668790661622e-9          , 3.64575715662632571e-9          , 3.30090280137450578e-9          , 3.01155493709479117e-9          , 2.7659243504828504e-9           , 2.55522220541528177e-9          , 2.37278939584448135e-9          , 2.21350548817264218e-9          , 2.07337983272235459e-9          , 1.94926374820059981e-9          , 1.8386446620733154e-9           , 1.73949667707716219e-9          , 1.65017060266163104e-9          , 1.56931199481472366e-9          , 1.49579934566390552e-9          , },
+/* x = 16.7        */  {0.21686361944292757             , 0.00649292106465909116          , 0.00058319482966057929          , 0.000087302942065538062         , 0.0000182953506330790794        , 4.92821174801756083e-6          , 1.62139059623556846e-6          , 6.29407019075964291e-7          , 2.80994669826774902e-7          , 1.41348086021856009e-7          , 7.87344407332359741e-8          , 4.78305371698434976e-8          , 3.12640431431502338e-8          , 2.17280767860351261e-8          , 1.5891459859214544e-8           , 1.21248210177257227e-8          , 9.58042328216511287e-9          , 7.79253456246305657e-9          , 6.49267651979114804e-9          , 5.5193328535056839e-9           , 4.77157686711194721e-9          , 4.18417178522177246e-9          , 3.71365487542974792e-9          , 3.33027411584299464e-9          , 3.01316076405503331e-9          , 2.74735220100341308e-9          , 2.52190563850273748e-9          , 2.32867320106175004e-9          , 2.16148838722196457e-9          , 2.01561449540327381e-9          , 1.88736351208414729e-9          , 1.77382815305240567e-9          , 1.67269041069218329e-9          , 1.58208271765896044e-9          , 1.50048587299304533e-9          , 1.42665303327357762e-9          , 1.35955243824075975e-9          , },
+/* x = 16.8        */  {0.216217228835941802            , 0.00643503506757822378          , 0.000574555197542297261         , 0.0000854977804285119926        , 0.0000178105326692291843        , 4.76917347349938404e-6          , 1.55983163378005563e-6          , 6.02001366835040713e-7          , 2.67245690150067126e-7          , 1.33708673186541247e-7          , 7.41041511030038231e-8          , 4.4810174395229912e-8           , 2.91687112383015695e-8          , 2.01979901033983332e-8          , 1.47256077175118975e-8          , 1.12046818548955294e-8          , 8.83273285769065981e-9          , 7.17008544108442061e-9          , 5.96391895698212739e-9          , 5.06249071205307954e-9          , 4.37118524662841848e-9          , 3.82896671513124752e-9          , 3.3952456924788215e-9           , 3.04228400827951566e-9          , 2.75065580076732128e-9          , 2.50645299863819946e-9          , 2.2995175430712182e-9           , 2.12229512795890844e-9          , 1.9690749569757358e-9           , 1.83547497215064582e-9          , 1.71808660337895424e-9          , 1.61422527746312404e-9          , 1.52175235109588016e-9          , 1.43894611124633837e-9          , 1.36440702292111398e-9          , 1.29698723506552451e-9          , 1.23573750613979164e-9          , },
+/* x = 16.9        */  {0.215576583929356896            , 0.00637800408804642609          , 0.000566093683750046858         , 0.0000837403155432704093        , 0.0000173413152489703671        , 4.6161563270129836e-6           , 1.5009457458416675e-6           , 5.75933174800213593e-7          , 2.54237995097891889e-7          , 1.26517530442890653e-7          , 6.97656713230906613e-8          , 4.19918849139185159e-8          , 2.72207090333037816e-8          , 1.87800100040868784e-8          , 1.36481326158546647e-8          , 1.03562857445363085e-8          , 8.14471805876235249e-9          , 6.59829314333430719e-9          , 5.47890154799534622e-9          , 4.64396359708194558e-9          , 4.00476901158987658e-9          , 3.50420537812801451e-9          , 3.10436223565226552e-9          , 2.77937612159449405e-9          , 2.51116242664151394e-9          , 2.28679204766201578e-9          , 2.09683451882558448e-9          , 1.93428526045260143e-9          , 1.79385507782352157e-9          , 1.67148969649357043e-9          , 1.56403859167640845e-9          , 1.46902267449120906e-9          , 1.38446866267716336e-9          , 1.30878921241294582e-9          , 1.24069495672216925e-9          , 1.17912912187490027e-9          , 1.12321834197218549e-9          , },
+/* x = 17.0        */  {0.21494160010412462             , 0.00632181055013963037          , 0.000557805595618873625         , 0.0000820290170210935375        , 0.0000168871094050137327        , 4.46889956670399242e-6          , 1.4446028193104725e-6           , 5.51130508054361495e-7          , 2.41928183636105022e-7          , 1.19746463077233344e-7          , 6.56995123905759376e-8          , 3.93614818533600889e-8          , 2.54092560423361876e-8          , 1.74656477608986183e-8          , 1.26521503634238538e-8          , 9.57391127504235567e-9          , 7.51152565701356939e-9          , 6.07296969098812127e-9          , 5.03395770578625229e-9          , 4.26050170371293142e-9          , 3.66941733108684291e-9          , 3.20725686431496743e-9          , 2.83860788169682155e-9          , 2.53935227907368539e-9          , 2.29265235084151608e-9          , 2.08648788245243004e-9          , 1.91210308285947839e-9          , 1.76300253540296142e-9          , 1.63428712527385916e-9          , 1.52220555743406781e-9          , 1.42384560884583337e-9          , 1.33691779269835791e-9          , 1.25960128682779063e-9          , 1.19043254282219778e-9          , 1.12822362297751719e-9          , 1.07200155287050057e-9          , 1.02096273723393747e-9          , },
+/* x = 17.1        */  {0.214312194475578458            , 0.00626643733964540629          , 0.000549686390620779413         , 0.000080362412087670588         , 0.0000164473516055009112        , 4.32715510947208329e-6          , 1.39067972218216268e-6          , 5.27525634000150946e-7          , 2.30275579077172856e-7          , 1.13369156103771522e-7          , 6.18875514739387838e-8          , 3.69058150698760805e-8          , 2.37243871650350101e-8          , 1.6247075250377858e-8           , 1.17313253274049608e-8          , 8.85230201554945489e-9          , 6.9287034186865671e-9           , 5.59027798987439202e-9          , 4.62573169832313491e-9          , 3.90913354605273347e-9          , 3.36247084014924265e-9          , 2.93571926558966204e-9          , 2.59579598998254271e-9          , 2.32020801129420804e-9          , 2.09327692888524185e-9          , 1.90382643135743695e-9          , 1.74372638702563677e-9          , 1.60695301021655677e-9          , 1.48896812862450631e-9          , 1.38630051955100446e-9          , 1.29625804358353089e-9          , 1.21672617238721863e-9          , 1.14602465781994932e-9          , 1.0828040115597719e-9           , 1.02596968454831025e-9          , 9.746258090900848e-10           , 9.28032949779050114e-10         , },
+/* x = 17.2        */  {0.21368828584800363             , 0.00621186778933315023          , 0.000541731670728377579         , 0.000078739083101704242         , 0.000016021502522344992         , 4.19068685342566741e-6          , 1.3390598966401271e-6           , 5.05054759100572183e-7          , 2.19242047768796905e-7          , 1.07361042697894714e-7          , 5.83129322092450683e-8          , 3.46126928236098028e-8          , 2.21568892930539607e-8          , 1.51170723565226686e-8          , 1.08798258826785707e-8          , 8.18662812022410854e-9          , 6.39216652514471357e-9          , 5.14670209499437006e-9          , 4.25115203671028297e-9          , 3.58714192140439686e-9          , 3.08149975793029825e-9          , 2.68739961666200612e-9          , 2.37393140274700713e-9          , 2.12011540295482858e-9          , 1.91135118246824783e-9          , 1.7372460662492711e-9           , 1.59025017781231419e-9          , 1.46477663261870448e-9          , 1.35662126546684676e-9          , 1.26257176946630952e-9          , 1.18013927722508849e-9          , 1.10737071653375524e-9          , 1.04271546161794658e-9          , 9.84929120441782256e-10         , 9.33003133942738177e-10         , 8.86112586630224314e-10         , 8.43577046185369433e-10         , },
+/* x = 17.3        */  {0.213069794670652326            , 0.00615808566477570464          , 0.000533937177020640702         , 0.0000771576651933600542        , 0.0000156090458653345302        , 4.05927003974176693e-6          , 1.28963297757843355e-6          , 4.8365778310907516e-7           , 2.08791830453482423e-7          , 1.01699182218600162e-7          , 5.49599725204557084e-8          , 3.24708095371079278e-8          , 2.06982429597643575e-8          , 1.40689786430194614e-8          , 1.00922835380314996e-8          , 7.5724511461641016e-9           , 5.89816683772981437e-9          , 4.73902002021526884e-9          , 3.9074071607485213e-9           , 3.29204196537744843e-9          , 2.82428392208337909e-9          , 2.46029560288390088e-9          , 2.17119358318994698e-9          , 1.93740746525757346e-9          , 1.7453392462852711e-9           , 1.58532399197522288e-9          , 1.45035001864453164e-9          , 1.33523520354117354e-9          , 1.23608448696904544e-9          , 1.1499249367514456e-9           , 1.07445544285259301e-9          , 1.00787193839227172e-9          , 9.48743328701663174e-10         , 8.95922064161055895e-10         , 8.48478767432230423e-10         , 8.05653815236656846e-10         , 7.66821038617545194e-10         , },
+/* x = 17.4        */  {0.212456642995150194            , 0.00610507515069878653          , 0.000526298784519078655         , 0.0000756168440161773237        , 0.00001520948727818445          , 3.93269065147234604e-6          , 1.24229443487854594e-6          , 4.63278069568927867e-7          , 1.98891385376767542e-7          , 9.63621470972023188e-8          , 5.18140793800125441e-8          , 3.04696791539613765e-8          , 1.93405686241006935e-8          , 1.30966489419571785e-8          , 9.36375543133437631e-9          , 7.00569181282440771e-9          , 5.44326476365371019e-9          , 4.36427887293577332e-9          , 3.5919232221363374e-9           , 3.02156111484588963e-9          , 2.58879457059144169e-9          , 2.25257887850119496e-9          , 1.98592124577999594e-9          , 1.770563897634836e-9            , 1.59384111397786688e-9          , 1.44676385524448139e-9          , 1.3228196607776157e-9           , 1.21720142525304906e-9          , 1.12630017145144177e-9          , 1.04736429167599587e-9          , 9.78266114553914702e-10         , 9.17339096706358396e-10         , 8.63262375577386619e-10         , 8.14977643394327746e-10         , 7.71628439224495239e-10         , 7.32515226554099048e-10         , 6.97061743187744476e-10         , },
+/* x = 17.5        */  {0.21184875443424243             , 0.00605282083783573922          , 0.000518812497243304577         , 0.0000741153536064275842        , 0.0000148223532929553043        , 3.81074484700115139e-6          , 1.1969452378701493e-6           , 4.43862231450128602e-7          , 1.8950924229127112e-7           , 9.13299179255476922e-8          , 4.88616699722276096e-8          , 2.85995736531239995e-8          , 1.80765772132689192e-8          , 1.21944125364080903e-8          , 8.68968991215938915e-9          , 6.4826004541480705e-9           , 5.02430350060429621e-9          , 4.01977211321434163e-9          , 3.3023437830017754e-9           , 2.77362081181788205e-9          , 2.3731777172416452e-9           , 2.06257985284193243e-9          , 1.81659834613609361e-9          , 1.61819811481955413e-9          , 1.45558056683083503e-9          , 1.32038446335060281e-9          , 1.20656045924116929e-9          , 1.10964893663834727e-9          , 1.02630571307626519e-9          , 9.53983831083065648e-10         , 8.90715842184601576e-10         , 8.34962137594882232e-10         , 7.85503517458221788e-10         , 7.41363916495559948e-10         , 7.01754024221791384e-10         , 6.66029603253251071e-10         , 6.33660293529743086e-10         , },
+/* x = 17.6        */  {0.211246054121830035            , 0.00600130771026619623          , 0.000511474443475530141         , 0.0000726519743442534934        , 0.0000144471903394842817        , 3.69323842600655672e-6          , 1.15349154051546549e-6          , 4.25359930874241841e-7          , 1.80615866567780938e-7          , 8.65837861285379933e-8          , 4.60900987646160024e-8          , 2.68514663104885643e-8          , 1.68995245799289315e-8          , 1.13570356412069517e-8          , 8.06589495411503147e-9          , 5.99972993584083308e-9          , 4.6383854569127056e-9           , 3.70301875427217888e-9          , 3.03651126340305888e-9          , 2.54631979597086905e-9          , 2.17573898054333252e-9          , 1.8887738146175581e-9           , 1.66184130968228437e-9          , 1.47904542636261956e-9          , 1.32939417929842418e-9          , 1.20510951300807377e-9          , 1.10057173964980608e-9          , 1.01164324641196404e-9          , 9.35224960935211188e-10         , 8.68959171749103678e-10         , 8.11026454700526386e-10         , 7.60004369573679583e-10         , 7.14767481687591634e-10         , 6.74415522214626931e-10         , 6.38221024450040233e-10         , 6.05590646571425791e-10         , 5.76036249398654628e-10         , },
+/* x = 17.7        */  {0.210648468674248853            , 0.00595052113321826427          , 0.000504280871224081785         , 0.0000712255310112460826        , 0.0000140835638066786716        , 3.57998632592684858e-6          , 1.11184438595756299e-6          , 4.07723691953410012e-7          , 1.7218353268371598e-7           , 8.21062636532646101e-8          , 4.34875900314808792e-8          , 2.52169793323020902e-8          , 1.5803169557778068e-8           , 1.05796869109278879e-8          , 7.48850916094487299e-9          , 5.55391082965527819e-9          , 4.28285066163020212e-9          , 3.41174433718057066e-9          , 2.79244998598066396e-9          , 2.33791884699661293e-9          , 1.99492973828427784e-9          , 1.72976827604663623e-9          , 1.52038738905087258e-9          , 1.351952265810305e-9            , 1.21422130495705837e-9          , 1.09995823856755343e-9          , 1.00394203020736599e-9          , 9.22333483146495165e-10         , 8.52260431509965121e-10         , 7.91540177922698959e-10         , 7.38490062142225135e-10         , 6.91795804889018769e-10         , 6.50418457921008861e-10         , 6.13527612069522802e-10         , 5.80452760199253077e-10         , 5.50647405540790777e-10         , 5.23662245643832667e-10         , },
+/* x = 17.8        */  {0.210055926152746031            , 0.00590044684131479675          , 0.000497228143876548409         , 0.0000698348909394234586        , 0.0000137310571527162162        , 3.47081214705559073e-6          , 1.07191942916698265e-6          , 3.90908725839996038e-7          , 1.64186206413849018e-7          , 7.78809991508010615e-8          , 4.10431754100647372e-8          , 2.36883355152933696e-8          , 1.47817353254166286e-8          , 9.85790572664326378e-9          , 6.95397515034979209e-9          , 5.14222865430416986e-9          , 3.95525699484589163e-9          , 3.14386352705053091e-9          , 2.56835067920935556e-9          , 2.14682685010760203e-9          , 1.82933449121575718e-9          , 1.58429142901490227e-9          , 1.39108405002037286e-9          , 1.23586637595509143e-9          , 1.10909495513971275e-9          , 1.00403689704860677e-9          , 9.15841080970882632e-10         , 8.40944888329810558e-10         , 7.76686224472585873e-10         , 7.21044256405108739e-10         , 6.72462692724322809e-10         , 6.29727106440117072e-10         , 5.91878326932917188e-10         , 5.58150336621463304e-10         , 5.27925092323666229e-10         , 5.00699216388130512e-10         , 4.7605913192813884e-10          , },
+/* x = 17.9        */  {0.209468356027110429            , 0.00585107092724524393          , 0.000490312736033660197         , 0.0000684789622468604538        , 0.0000133892710613778335        , 3.36554770451686491e-6          , 1.03363667650806638e-6          , 3.74872767148271659e-7          , 1.56599435098528975e-7          , 7.38927001669903633e-8          , 3.87466361026837801e-8          , 2.22583136161905534e-8          , 1.38298738121688591e-8          , 9.18757303372860065e-9          , 6.45901511770767164e-9          , 4.76200300884874035e-9          , 3.65336208317244072e-9          , 2.89746419128360253e-9          , 2.36255631279856189e-9          , 1.971588069184615e-9            , 1.67765932964978804e-9          , 1.451181615053177e-9            , 1.27287929470807369e-9          , 1.12982786494764646e-9          , 1.01313349038552543e-9          , 9.16531014864613776e-10         , 8.35512599479266189e-10         , 7.66771985353730028e-10         , 7.07841578148535714e-10         , 6.5685025859578108e-10          , 6.12358507274120412e-10         , 5.7324408511127855e-10          , 5.38621415231088705e-10         , 5.07783835007910414e-10         , 4.80161627061240915e-10         , 4.55291105320895255e-10         , 4.3279155812977626e-10          , },
+/* x = 18.0        */  {0.208885689140415294            , 0.00580237983084543193          , 0.000483531229515459752         , 0.0000671566921554876124        , 0.0000130578226419074604        , 3.26403260548395642e-6          , 9.9692024112718911e-7           , 3.59575920969687383e-7          , 1.49400245411127726e-7          , 7.01270608956794085e-8          , 3.65884493686998926e-8          , 2.09202071388329199e-8          , 1.29426329013456814e-8          , 8.56488452191470571e-9          , 6.00060839852734516e-9          , 4.41076843923834392e-9          , 3.37510671865766759e-9          , 2.67079283252751116e-9          , 2.17354914982639618e-9          , 1.8108705221906675e-9           , 1.53872140613120567e-9          , 1.32937771962963345e-9          , 1.16481283887115583e-9          , 1.03296105568026066e-9          , 9.25533052007211737e-10         , 8.3669832787890963e-10          , 7.62267638253104519e-10         , 6.99172363408386418e-10         , 6.45125006743017349e-10         , 5.98392934434426679e-10         , 5.57644538525515157e-10         , 5.21842697370661003e-10         , 4.90169727489972632e-10         , 4.61973681725988685e-10         , 4.36729359192461485e-10         , 4.1400961221020039e-10          , 3.93463964505877757e-10         , },
+/* x = 18.1        */  {0.208307857674833271            , 0.00575436032856844537          , 0.000476880309531762077         , 0.0000658670653868304264        , 0.0000127363446699520453        , 3.16611385011103486e-6          , 9.61698113140122588e-7          , 3.44980519758912926e-7          , 1.42567048089357684e-7          , 6.6570695082047925e-8           , 3.45597389781758242e-8          , 1.96677862705178611e-8          , 1.21154262064354991e-8          , 7.9863259561309873e-9           , 5.57597086371798121e-9          , 4.08625689223413584e-9          , 3.1185996715555932e-9           , 2.46224126001074138e-9          , 1.99993891026050306e-9          , 1.66345536272632254e-9          , 1.41143932589449839e-9          , 1.21791040919140045e-9          , 1.0660080675769194e-9           , 9.44467057790487165e-10         , 8.45560667602407715e-10         , 7.63862352584868525e-10         , 6.95478575493993297e-10         , 6.3756102077999744e-10          , 5.87988966683815518e-10         , 5.45157888177672571e-10         , 5.07835907556269179e-10         , 4.75064497568692886e-10         , 4.46088613201157855e-10         , 4.20306748870981303e-10         , 3.97234713409116295e-10         , 3.7647899658241124e-10          , 3.57716939458714381e-10         , },
+/* x = 18.2        */  {0.207734795118485443            , 0.00570699952333056752          , 0.000470356761009310901         , 0.0000646091026316969438        , 0.0000124244848672827708        , 3.07164545474613148e-6          , 9.2790194366543119e-7           , 3.31050989419364134e-7          , 1.36079549134744809e-7          , 6.32110736951898562e-8          , 3.26522293248037442e-8          , 1.8495262720745265e-8           , 1.1344005214049179e-8           , 7.44865048256809052e-9          , 5.1825359957029523e-9           , 3.7863816233416109e-9           , 2.88210377851205928e-9          , 2.27033439299854329e-9          , 1.84045194970324272e-9          , 1.52822718003486265e-9          , 1.29482437460463361e-9          , 1.11589413662195049e-9          , 9.75664700247057438e-10         , 8.63616997949631993e-10         , 7.7254797027147592e-10          , 6.97406531800860987e-10         , 6.34573635606948631e-10         , 5.81405217071903771e-10         , 5.35935004208893605e-10         , 4.9667699049878998e-10          , 4.62491474002132656e-10         , 4.32492503526898677e-10         , 4.05982827924275727e-10         , 3.82407445860630276e-10         , 3.61319947442616712e-10         , 3.42357790873339916e-10         , 3.25223911160883348e-10         , },
+/* x = 18.3        */  {0.20716643623328766             , 0.00566028483471697171          , 0.000463957465068426766         , 0.0000633818590900447632        , 0.0000121219052181370996        , 2.98048809608574863e-6          , 8.95466841815511976e-7          , 3.17753723964649155e-7          , 1.29918667021154118e-7          , 6.00364670181454478e-8          , 3.08582029193788769e-8          , 1.73972572352857869e-8          , 1.06244336042643849e-8          , 6.9488577489375139e-9           , 4.81793750616984323e-9          , 3.50922243670570603e-9          , 2.66402319787924245e-9          , 2.09371909930378109e-9          , 1.69392136557747883e-9          , 1.40416513745546731e-9          , 1.18797250997996207e-9          , 1.02251984736835606e-9          , 8.93052102222478076e-10         , 7.89745849850133889e-10         , 7.05885476706548625e-10         , 6.3676890336405108e-10          , 5.79031900985518906e-10         , 5.30219788435406801e-10         , 4.88509340668053579e-10         , 4.52524205535039368e-10         , 4.21209880630347258e-10         , 3.93747437785643978e-10         , 3.6949295314204802e-10          , 3.47934302151270716e-10         , 3.28659883842582647e-10         , 3.11335669115890425e-10         , 2.95688142397038444e-10         , },
+/* x = 18.4        */  {0.206602717023758925            , 0.00561420398953255982          , 0.000457679395642308584         , 0.0000621844230774679163        , 0.0000118282813201508646        , 2.89250877501723325e-6          , 8.64331183817010003e-7          , 3.05056968176563381e-7          , 1.24066455487088399e-7          , 5.70358908303506838e-8          , 2.91704610068767763e-8          , 1.63687695766525728e-8          , 9.9530635744405313e-9           , 6.48417469123412117e-9          , 4.47999336792727306e-9          , 3.25301214527970912e-9          , 2.46289173315416738e-9          , 1.93115398017635598e-9          , 1.55927795061344664e-9          , 1.29033487633423648e-9          , 1.09005705036515216e-9          , 9.37048324493848245e-10         , 8.17503185587985091e-10         , 7.22246810539720269e-10         , 6.45017374232859497e-10         , 5.81437244940556852e-10         , 5.2837877087964066e-10          , 4.8356288404954706e-10          , 4.45298855954550683e-10         , 4.12311795266624069e-10         , 3.83625956443836872e-10         , 3.58484310311859403e-10         , 3.36292142012215196e-10         , 3.16576861608596863e-10         , 2.98958940330933876e-10         , 2.831306021531743e-10           , 2.68840000795591091e-10         , },
+/* x = 18.5        */  {0.206043574706758025            , 0.00556874501268400982          , 0.000451519616232496419         , 0.0000610159146949410844        , 0.0000115433017679709627        , 2.80758049897504578e-6          , 8.34436433488203593e-7          , 2.92930707721207463e-7          , 1.1850603151773355e-7           , 5.4199056382148642e-8           , 2.75822870702392866e-8          , 1.54051507787312006e-8          , 9.32651400672559512e-9          , 6.05203785151808873e-9          , 4.16669114402750813e-9          , 3.01612414904938219e-9          , 2.27736213401514197e-9          , 1.78150002055484027e-9          , 1.43554192047158958e-9          , 1.18588111879670864e-9          , 1.00032199921894708e-9          , 8.58804116378546907e-10         , 7.48408847089376273e-10         , 6.60566174514901011e-10         , 5.89436771357560882e-10         , 5.30944652285132116e-10         , 4.82181827150571433e-10         , 4.41032085865126785e-10         , 4.05927434070577792e-10         , 3.75686867028441601e-10         , 3.49407445748850258e-10         , 3.2638931158673705e-10          , 3.06083161297130791e-10         , 2.88052860063321798e-10         , 2.71948431412755826e-10         , 2.57486273121879921e-10         , 2.44434479180618365e-10         , },
+/* x = 18.6        */  {0.20548894768211595             , 0.00552389621837972711          , 0.000445475276794330106         , 0.0000598754845586437945        , 0.0000112666675677528276        , 2.72558198171166865e-6          , 8.05726973352875821e-7          , 2.81346566222742233e-7          , 1.13221508151606421e-7          , 5.15163238837616812e-8          , 2.6087413002421971e-8           , 1.45020774986421175e-8          , 8.74165033245683016e-9          , 5.65007710242059498e-9          , 3.87617450709627537e-9          , 2.79706103775315498e-9          , 2.10619629217669849e-9          , 1.6437120306574309e-9           , 1.32181534869987798e-9          , 1.09002090861615227e-9          , 9.18075949856325754e-10         , 7.87169995772439121e-10         , 6.85212895613985526e-10         , 6.04198661324051829e-10         , 5.38681370453113315e-10         , 4.84865512119030426e-10         , 4.4004707034128847e-10          , 4.02260877062195384e-10         , 3.70052638092637782e-10         , 3.42328233061982068e-10         , 3.18252033582858102e-10         , 2.97176987827411924e-10         , 2.785957024664605e-10           , 2.62105660186701933e-10         , 2.47384116428344325e-10         , 2.34169729359708005e-10         , 2.22248943095823863e-10         , },
+/* x = 18.7        */  {0.204938775504132952            , 0.00547964620163499556          , 0.000439543610746547284         , 0.000058762312586861448         , 0.0000109980915808532586        , 2.64639735945350433e-6          , 7.78149945718456752e-7          , 2.70277708829456488e-7          , 1.08197931773357812e-7          , 4.89786592521074245e-8          , 2.46799877452346506e-8          , 1.36555283029856291e-8          , 8.19556595856696082e-9          , 5.27610066432911461e-9          , 3.60673085076526632e-9          , 2.59444413245795693e-9          , 1.94825625636180563e-9          , 1.51683081127471796e-9          , 1.21727524803074852e-9          , 1.00203743472921286e-9          , 8.4268651968380127e-10          , 7.21581903443067325e-10         , 6.27407425930127295e-10         , 5.52683156379427652e-10         , 4.92329524908234372e-10         , 4.42811834284447864e-10         , 4.01615492787211415e-10         , 3.6691542779296981e-10          , 3.37362684768668595e-10         , 3.11943553838207909e-10         , 2.89884640593292312e-10         , 2.70587672671810079e-10         , 2.53583937434729969e-10         , 2.38501920186960264e-10         , 2.25043971504310255e-10         , 2.12969249078403034e-10         , 2.02081084660467415e-10         , },
+/* x = 18.8        */  {0.204392998853910345            , 0.00543598383007019475          , 0.000433721932099456437         , 0.0000576756068411239353        , 0.0000107372979951288651        , 2.56991592247706298e-6          , 7.51655103091103054e-7          , 2.59698751839418131e-7          , 1.03421223578964201e-7          , 4.65775938781961018e-8          , 2.33545482091358495e-8          , 1.28617617385541183e-8          , 7.68556513203528533e-9          , 4.92808131060276971e-9          , 3.35677990329938271e-9          , 2.40700388759213049e-9          , 1.80249599715792694e-9          , 1.39997598095727651e-9          , 1.1211672423214544e-9           , 9.21274386799888844e-10         , 7.7357526763238491e-10          , 6.61524333795473113e-10         , 5.7452859922838701e-10          , 5.05598828272857e-10            , 4.49996646452294859e-10         , 4.04429911009161059e-10         , 3.66559958490670791e-10         , 3.34691669622009565e-10         , 3.07573691675333345e-10         , 2.84266739448830011e-10         , 2.64054962905930276e-10         , 2.46385151995844536e-10         , 2.3082429663617589e-10          , 2.17029474976953207e-10         , 2.04726164926539165e-10         , 1.93692403130670481e-10         , 1.83747063831372657e-10         , },
+/* x = 18.9        */  {0.203851559512488303            , 0.00539289823599049261          , 0.000428007632696396697         , 0.0000566146024188968472        , 0.0000104840218223437901        , 2.49603186120136103e-6          , 7.26194667342124532e-7          , 2.49585677983199865e-7          , 9.88781249223633317e-8          , 4.43051871957013918e-8          , 2.21059923025307517e-8          , 1.21172960494836443e-8          , 7.20914712845131719e-9          , 4.60414366477827777e-9          , 3.12486326101453624e-9          , 2.23357108166025188e-9          , 1.6679538584339624e-9           , 1.29233940861525739e-9          , 1.03279977827698356e-9          , 8.4713079665567095e-10          , 7.10213052563680878e-10         , 6.06526123609705982e-10         , 5.26152794511992787e-10         , 4.62561589163376867e-10         , 4.11331931428959864e-10         , 3.69397274004100621e-10         , 3.34582362210187878e-10         , 3.05312632658093325e-10         , 2.80427172315637645e-10         , 2.59055585696489839e-10         , 2.40535234746795519e-10         , 2.24354540658478751e-10         , 2.10113449175135753e-10         , 1.97495410415867568e-10         , 1.8624721733330945e-10          , 1.76164294003553496e-10         , 1.67079819883287522e-10         , },
+/* x = 19.0        */  {0.203314400334762091            , 0.00535037880873593826          , 0.000422398179563457296         , 0.0000555785603952854985        , 0.0000102380084202779198        , 2.42464402594904581e-6          , 7.01723197078999123e-7          , 2.39915756989196088e-7          , 9.45561462736948433e-8          , 4.21539918477703965e-8          , 2.09295539123710597e-8          , 1.14188904137435522e-8          , 6.76399165996222195e-9          , 4.30255250161890214e-9          , 2.90963476595192342e-9          , 2.07306873092285557e-9          , 1.54374563739661198e-9          , 1.19317919990923494e-9          , 9.51538830507525143e-10         , 7.79056323453714809e-10         , 6.52115794135726579e-10         , 5.56156608474408479e-10         , 4.81893098075323607e-10         , 4.23220867785586704e-10         , 3.76015377589087041e-10         , 3.37419922745473618e-10         , 3.05411042696891762e-10         , 2.78526021720999891e-10         , 2.5568775676625596e-10          , 2.3608962363524532e-10          , 2.19118193603742273e-10         , 2.04300351902395029e-10         , 1.91266466639832086e-10         , 1.79724313001363632e-10         , 1.69440329830370943e-10         , 1.60225955809429671e-10         , 1.51927537498216819e-10         , },
+/* x = 19.1        */  {0.2027814652241502              , 0.0053084151872913701           , 0.000416891112362676649         , 0.0000545667668113487152        , 9.99901303820886608e-6          , 2.35565569958160923e-6          , 6.78197462710350241e-7          , 2.30667471083042692e-7          , 9.04435195388303164e-8          , 4.01170212643401331e-8          , 1.98207796900560271e-8          , 1.076352758190718e-8            , 6.34794540632311116e-9          , 4.02170197109307553e-9          , 2.70985165856520277e-9          , 1.92450466586566981e-9          , 1.42905824030139975e-9          , 1.10181419025193451e-9          , 8.76803057499879951e-10         , 7.16546944114483366e-10         , 5.98840600998496274e-10         , 5.10022114623456902e-10         , 4.4139610121692024e-10          , 3.87256667341338146e-10         , 3.43755065516246054e-10         , 3.08229799685177043e-10         , 2.78798427267584701e-10         , 2.54102010022505119e-10         , 2.33141117510876647e-10         , 2.1516816324077684e-10          , 1.99615229551925129e-10         , 1.86044741893851813e-10         , 1.74115153847915461e-10         , 1.6355667899979611e-10          , 1.5415386467706926e-10          , 1.45732900533913229e-10         , 1.38152253287579729e-10         , },
+/* x = 19.2        */  {0.202252699107988929            , 0.00526699725314602036          , 0.000411484040944174855         , 0.0000535785317067481153        , 9.76680038451797291e-6          , 2.28897438226341429e-6          , 6.55576328727888272e-7          , 2.2182044509676823e-7           , 8.65291535079394771e-8          , 3.81877194762584268e-8          , 1.87755075078714216e-8          , 1.01483978103815712e-8          , 5.9590095805241827e-9           , 3.76010567100148558e-9          , 2.52436644193730702e-9          , 1.78696471535245788e-9          , 1.32314386534579879e-9          , 1.01761890129593331e-9          , 8.08059369758076685e-10         , 6.59141013916700947e-10         , 5.49982234273536873e-10         , 4.67762756733528406e-10         , 4.04338978981619803e-10         , 3.54376883008473181e-10         , 3.14284681113299961e-10         , 2.81582490310004612e-10         , 2.5451888695736235e-10          , 2.31831230783663634e-10         , 2.12592081938905699e-10         , 1.96108513642450621e-10         , 1.81854702037944418e-10         , 1.69425913480913764e-10         , 1.58506531319011618e-10         , 1.48847468465839431e-10         , 1.40249964598013564e-10         , 1.32553797151443097e-10         , 1.25628589872524451e-10         , },
+/* x = 19.3        */  {0.201728047913628923            , 0.00522611512339314081          , 0.000406174642992894682         , 0.0000526131881945799407        , 9.54114421524279499e-6          , 2.22451158765537453e-6          , 6.3382064275962232e-7           , 2.13355380885683729e-7          , 8.28025922175533085e-8          , 3.63599330054587569e-8          , 1.77898464615548745e-8          , 9.57088398976565125e-9          , 5.59532844758838737e-9          , 3.51638750005211032e-9          , 2.3521193993188796e-9           , 1.65960644799350472e-9          , 1.22531466839638394e-9          , 9.4001892148659181e-10          , 7.44818874723639565e-10         , 6.06415665209234139e-10         , 5.05169877084505317e-10         , 4.29049514838510152e-10         , 3.70426825138800787e-10         , 3.2431485605046138e-10          , 2.87361257685840899e-10         , 2.57255127950983883e-10         , 2.32366783362744867e-10         , 2.11522948977389944e-10         , 1.93862914664720745e-10         , 1.78744363942768298e-10         , 1.65680408935883508e-10         , 1.54296664699240099e-10         , 1.4430145565683679e-10          , 1.3546479093254314e-10          , 1.27603298051351405e-10         , 1.20569271446762196e-10         , 1.14242605829582637e-10         , },
+/* x = 19.4        */  {0.201207458545210142            , 0.00518575914406039628          , 0.000400960661765835642         , 0.0000516700915763508318        , 9.32182694246623412e-6          , 2.16218264988222085e-6          , 6.1289313097779616e-7           , 2.05253995771788963e-7          , 7.92539760260540246e-8          , 3.46278846823963949e-8          , 1.6860158304113227e-8           , 9.02854787681545023e-9          , 5.25517872167054274e-9          , 3.28927322875838328e-9          , 2.19213171161180545e-9          , 1.54165342450525931e-9          , 1.13493787097228715e-9          , 8.68486674642968529e-10         , 6.86633166148597976e-10         , 5.57983514988655362e-10         , 4.6406418346956861e-10          , 3.93581565884381855e-10         , 3.39390220801291823e-10         , 2.96827143559789561e-10         , 2.62763118076593101e-10         , 2.35044485046772291e-10         , 2.12154689985749737e-10         , 1.93003396992433995e-10         , 1.76791754346535378e-10         , 1.62924310098304626e-10         , 1.50950194068599894e-10         , 1.40523068872327229e-10         , 1.31373365283977278e-10         , 1.23288710760830567e-10         , 1.16099918944261622e-10         , 1.09670815495251414e-10         , 1.03890750882076117e-10         , },
+/* x = 19.5        */  {0.200690878861092613            , 0.00514591988366217419          , 0.000395839903915864181         , 0.0000507486184951667028        , 9.10863926149608782e-6          , 2.10190654065757167e-6          , 5.92758299472148547e-7          , 1.9749896475175477e-7           , 7.58740052168417047e-8          , 3.29861492529952284e-8          , 1.59830402048054941e-8          , 8.5191173456774437e-9           , 4.93695977259195215e-9          , 3.07758273064881366e-9          , 2.04349912584674096e-9          , 1.43238991871949786e-9          , 1.05143127335408622e-9          , 8.02537543620250615e-10         , 6.33090928390094879e-10         , 5.13489654639447162e-10         , 4.26354582344701746e-10         , 3.61083847606094881e-10         , 3.1098301609146176e-10          , 2.71691484733864307e-10         , 2.40287999051193621e-10         , 2.1476523420547221e-10          , 1.93711772435487475e-10         , 1.76114259476558075e-10         , 1.61231191069631357e-10         , 1.48510514653177336e-10         , 1.37534680642112605e-10         , 1.27983274350610197e-10         , 1.19607140117778748e-10         , 1.1221016123488583e-10          , 1.05636230339545625e-10         , 9.97597967675276136e-11         , 9.44789166922920344e-11         , },
+/* x = 19.6        */  {0.200178257651921216            , 0.00510658812696534022          , 0.000390810237398370946         , 0.0000498481661253054883        , 8.90137979584843959e-6          , 2.0436056959886829e-6           , 5.73382341224385849e-7          , 1.90073866225444628e-7          , 7.2653905956685786e-8           , 3.14296306475528508e-8          , 1.51553087353040193e-8          , 8.04047458065810699e-9          , 4.63918457845790434e-9          , 2.88022282096584178e-9          , 1.90538612975742647e-9          , 1.33115606845353972e-9          , 9.74259138838600019e-10         , 7.41726318930795665e-10         , 5.83814828647735656e-10         , 4.72608897458663487e-10         , 3.91756814318909832e-10         , 3.31304834374711545e-10         , 2.84980306084846578e-10         , 2.48704946281415445e-10         , 2.19751341725508044e-10         , 1.96248363902124581e-10         , 1.7688231325055467e-10          , 1.60711293946244565e-10         , 1.47046971618796952e-10         , 1.35377487313388155e-10         , 1.25316119181206392e-10         , 1.1656641302211682e-10          , 1.08898064816498701e-10         , 1.02129957486882781e-10         , 9.61180426539422389e-11         , 9.07465577432500999e-11         , 8.59215744944935337e-11         , },
+/* x = 19.7        */  {0.199669544619303561            , 0.00506775486896033478          , 0.000385869589457224196         , 0.0000489681513964403544        , 8.6998547591043519e-6           , 1.98720585191797338e-6          , 5.54733048343317039e-7          , 1.82963131017566133e-7          , 6.95853984490476173e-8          , 2.99535407934719194e-8          , 1.43739849925114365e-8          , 7.59064513887625114e-9          , 4.36047136606948998e-9          , 2.69618065433302991e-9          , 1.77702059126842479e-9          , 1.23734342070478294e-9          , 9.02928418041431476e-10         , 6.85643944780491567e-10         , 5.38458672494957712e-10         , 4.35043261708060009e-10         , 3.60010681106560136e-10         , 3.040145064556623e-10           , 2.6117658392328954e-10          , 2.27682231104877115e-10         , 2.00984733271912524e-10         , 1.79339735007813266e-10         , 1.61524368385345319e-10         , 1.46663074959579465e-10         , 1.34116821110685269e-10         , 1.23410975438913435e-10         , 1.14187339590863494e-10         , 1.06171607716416298e-10         , 9.91508861705166447e-11         , 9.29578992402972314e-11         , 8.74597177178691249e-11         , 8.25495977542410821e-11         , 7.81409916125696915e-11         , },
+/* x = 19.8        */  {0.199164690355080809            , 0.00502941130902985074          , 0.000381015944686637192         , 0.0000481080102508703667        , 8.50387763276194769e-6          , 1.93263588879136593e-6          , 5.36779729242060277e-7          , 1.76151994480488518e-7          , 6.6660667133532563e-8           , 2.8553379862389275e-8           , 1.36362807743928774e-8          , 7.16778781673768045e-9          , 4.09953588549314067e-9          , 2.52451763681541002e-9          , 1.65768882511560078e-9          , 1.150390838608943e-9            , 8.36985284783811946e-10         , 6.3391453733402814e-10          , 4.96704800183149118e-10         , 4.00519668872177715e-10         , 3.30877989054965935e-10         , 2.79002495752912209e-10         , 2.39384055503458211e-10         , 2.08454135813569183e-10         , 1.8383448645958262e-10          , 1.63898765582860316e-10         , 1.47508543567868593e-10         , 1.33849850748958474e-10         , 1.22329370498849399e-10         , 1.12506954520104442e-10         , 1.04050797910300057e-10         , 9.67070695224753439e-11         , 9.02789560726683539e-11         , 8.46119551839687665e-11         , 7.95833908557481694e-11         , 7.50948295355642384e-11         , 7.10665196360298251e-11         , },
+/* x = 19.9        */  {0.198663646321172061            , 0.00499154884530766382          , 0.000376247343165727393         , 0.0000472671969322008985        , 8.31326885925540412e-6          , 1.87982768357430733e-6          , 5.19493130459200383e-7          , 1.69626451480613056e-7          , 6.38723327931655896e-8          , 2.72249178503168255e-8          , 1.29395857315279979e-8          , 6.77018525931865801e-9          , 3.85518426942522026e-9          , 2.36436381141771706e-9          , 1.54673105193650736e-9          , 1.06978074032546094e-9          , 7.7601195750964627e-10          , 5.86192652176205005e-10         , 4.58261703139743906e-10         , 3.68787838566963738e-10         , 3.04140669922266785e-10         , 2.56076392603205288e-10         , 2.19431101525941198e-10         , 1.90866143906080054e-10         , 1.68160344783427006e-10         , 1.49797232492024009e-10         , 1.34716879796177304e-10         , 1.2216250221085501e-10          , 1.11583180411850699e-10         , 1.02570709604776938e-10         , 9.48177091828259195e-11         , 8.80892768579651598e-11         , 8.22034522825738025e-11         , 7.70175215367318953e-11         , 7.24182638632077703e-11         , 6.83149036521600106e-11         , 6.46339476909043473e-11         , },
+/* x = 20.0        */  {0.198166364829973654            , 0.00495415906922050079          , 0.000371561878662696998         , 0.0000464451833039965638        , 8.12785554935883771e-6          , 1.82871596976517752e-6          , 5.02845362844862854e-7          , 1.63373214084019464e-7          , 6.12134264409463349e-8          , 2.59641773968412284e-8          , 1.22814554229386195e-8          , 6.39623525648181131e-9          , 3.62630643191607756e-9          , 2.21491267938658453e-9          , 1.44353721802498061e-9          , 9.95035642507146998e-10         , 7.19623782382074977e-10         , 5.42160779904247911e-10         , 4.22861841855252976e-10         , 3.39618363155145057e-10         , 2.79599063515302485e-10         , 2.35060199542221102e-10         , 2.01160873946923738e-10         , 1.7477714262932526e-10          , 1.53834302028493235e-10         , 1.36918179423940267e-10         , 1.23041838204559895e-10         , 1.11501595060077915e-10         , 1.01785852646643187e-10         , 9.35159994605025961e-11         , 8.64072586432773836e-11         , 8.02422288700340642e-11         , 7.48526699093397054e-11         , 7.01067480417130756e-11         , 6.5899962408905456e-11          , 6.21485945943979659e-11         , 5.87849148440924438e-11         , },
+/* x = 20.1        */  {0.1976727990252954              , 0.00491723376020613131          , 0.000366957696905708259         , 0.0000456414581970054575        , 7.94747120323672388e-6          , 1.7792382044828013e-6           , 4.86809831850470435e-7          , 1.57379671769507783e-7          , 5.86773648661869149e-8          , 2.47674177563003678e-8          , 1.16596002101443835e-8          , 6.04444267390868867e-9          , 3.41186996462679278e-9          , 2.07541642273052362e-9          , 1.3475431465627206e-9           , 9.25714983293933524e-10         , 6.67466556224108694e-10         , 5.01527050584398437e-10         , 3.9025964797390984e-10          , 3.12800946595320755e-10         , 2.57070348142157704e-10         , 2.15792919202131745e-10         , 1.84430015019624261e-10         , 1.60058252586575174e-10         , 1.40739526111101081e-10         , 1.25154921829382668e-10         , 1.12385375407854386e-10         , 1.01776516783918227e-10         , 9.28532214232023069e-11         , 8.52642960004915861e-11         , 7.87458841324933792e-11         , 7.30967664223713035e-11         , 6.81613771817567758e-11         , 6.38179252465527535e-11         , 5.99699519805040983e-11         , 5.65402429042789316e-11         , 5.34663762263938907e-11         , },
+/* x = 20.2        */  {0.197182902863816483            , 0.00488076488060115409          , 0.000362432993917663484         , 0.0000448555267836252454        , 7.77195544444354478e-6          , 1.73133444233005927e-6          , 4.71361171677553055e-7          , 1.51633854008680227e-7          , 5.62579277295221505e-8          , 2.36311198402071294e-8          , 1.10718749283769042e-8          , 5.71341197124768457e-9          , 3.21091449210861917e-9          , 1.94518149616848882e-9          , 1.25822699354061058e-9          , 8.61412201860623171e-10         , 6.19214069311158108e-10         , 4.64023129449497199e-10         , 3.60229694881778991e-10         , 2.88142793393992374e-10         , 2.36387106060821086e-10         , 1.98127264628344895e-10         , 1.69107488156195539e-10         , 1.4659176013664031e-10          , 1.28769377943405045e-10         , 1.14410140141542487e-10         , 1.02658101230448913e-10         , 9.2904690784783704e-11          , 8.47086172191725986e-11         , 7.77440921778293907e-11         , 7.17666232916683989e-11         , 6.65899545367139008e-11         , 6.20702296610011142e-11         , 5.80949274865480615e-11         , 5.45750070319353808e-11         , 5.14392482102725381e-11         , 4.8630117955960878e-11          , },
+/* x = 20.3        */  {0.196696631097044347            , 0.00484474457069222137          , 0.000357986014412229187         , 0.0000440869099783494287        , 7.60115376621396243e-6          , 1.68494721565927427e-6          , 4.56475183056475131e-7          , 1.46124395063424879e-7          , 5.39492361032573049e-8          , 2.25519722560652112e-8          , 1.05162692784756749e-8          , 5.40184026327247694e-9          , 3.02254645064385123e-9          , 1.82356455928496727e-9          , 1.1751059837824509e-9           , 8.01752053462178974e-10         , 5.74565849709382721e-10         , 4.29402287716330544e-10         , 3.32565022437067964e-10         , 2.65467134754800614e-10         , 2.17396012224399365e-10         , 1.81928481331866115e-10         , 1.55073510791715104e-10         , 1.34270143509866255e-10         , 1.17826516892539514e-10         , 1.04595053413985874e-10         , 9.37785114528736413e-11         , 8.48108607851155978e-11         , 7.72821966515947823e-11         , 7.08902721678397259e-11         , 6.54085196742840913e-11         , 6.06645207144019668e-11         , 5.65252375832688224e-11         , 5.2886706497188762e-11          , 4.96667284774639737e-11         , 4.67996085176946913e-11         , 4.42323163948205262e-11         , },
+/* x = 20.4        */  {0.196213939253760549            , 0.00480916514392470485          , 0.000353615050248566751         , 0.0000433351438629961441        , 7.43491728942112571e-6          , 1.64002142088723166e-6          , 4.42128774440403646e-7          , 1.40840500861131565e-7          , 5.1745732360928773e-8           , 2.15268582731546471e-8          , 9.9908988872269303e-9           , 5.108510883350147e-9            , 2.84593425798955496e-9          , 1.7099687220259641e-9           , 1.09773340450052676e-9          , 7.4638814067244454e-10          , 5.33245092396231421e-10         , 3.97437633774414169e-10         , 3.07075602721199929e-10         , 2.44611880137373985e-10         , 1.9995663564406977e-10          , 1.67073271331552005e-10         , 1.42218580298460721e-10         , 1.22995184371352786e-10         , 1.07822085156226523e-10         , 9.56286662150872756e-11         , 8.56722888698507908e-11         , 7.74264391917292433e-11         , 7.05103324623914115e-11         , 6.4643538217567933e-11          , 5.96160824450237564e-11         , 5.52683440702674105e-11         , 5.1477281503610492e-11          , 4.81468310454691959e-11         , 4.52011051217376798e-11         , 4.25795015274598313e-11         , 4.02331376806399322e-11         , },
+/* x = 20.5        */  {0.195734783622938109            , 0.0047740190822630547           , 0.000349318438942348724         , 0.0000425997791355823716        , 7.27310253161488328e-6          , 1.59650421052847714e-6          , 4.28299906413338093e-7          , 1.35771917817244109e-7          , 4.9642161326640851e-8           , 2.05528436508904323e-8          , 9.49399698781784075e-9          , 4.83228741165336374e-9          , 2.68030384394245423e-9          , 1.60384007883352715e-9          , 1.02569583566142659e-9          , 6.95000643116942161e-10         , 4.94996757810694253e-10         , 3.67920491252833359e-10         , 2.83586934816156706e-10         , 2.25428383458806231e-10         , 1.83940343622114644e-10         , 1.53448810295608726e-10         , 1.30442584788400795e-10         , 1.12677157294909588e-10         , 9.86749640603416593e-11         , 8.74370822578048457e-11         , 7.82716665551537684e-11         , 7.06889136838148072e-11         , 6.4335058200562726e-11          , 5.89498890498861648e-11         , 5.43387948184522218e-11         , 5.03539906716790951e-11         , 4.68816718519278137e-11         , 4.38330683899650064e-11         , 4.11381150180710439e-11         , 3.87409041429307171e-11         , 3.65963738478375191e-11         , },
+/* x = 20.6        */  {0.19525912123711547             , 0.00473929903169733928          , 0.000345094562230750632         , 0.000041880380581763626         , 7.11557118658382549e-6          , 1.55434489063501597e-6          , 4.1496753912362631e-7           , 1.30908903483382777e-7          , 4.76335526009458742e-8          , 1.96271652700074812e-8          , 9.0239066756886046e-9           , 4.57210813343905491e-9          , 2.52493451401278225e-9          , 1.50466450870261947e-9          , 9.5861059813590028e-10          , 6.47294229470132863e-10         , 4.59585825771904966e-10         , 3.40658911618961887e-10         , 2.61938757643010483e-10         , 2.07780314102421206e-10         , 1.69229299956863905e-10         , 1.40951849671354028e-10         , 1.19653991361567696e-10         , 1.03234090279099809e-10         , 9.03110959064576916e-11         , 7.99528788263299207e-11         , 7.15148477759998011e-11         , 6.45413068047659054e-11         , 5.87035626818080253e-11         , 5.37601451721219245e-11         , 4.95306668296980435e-11         , 4.58782908941734588e-11         , 4.26977484116818872e-11         , 3.99070037618370999e-11         , 3.7441363113384746e-11          , 3.52492466760173137e-11         , 3.32891121899416291e-11         , },
+/* x = 20.7        */  {0.194786909856212718            , 0.00470499779789067923          , 0.000340941844689213525         , 0.0000411765265678132817        , 6.9621899139153433e-6           , 1.51349482334880025e-6          , 4.02111582566160467e-7          , 1.26242198907302576e-7          , 4.57152039857917688e-8          , 1.87472205111280351e-8          , 8.57907369839790463e-9          , 4.32698089537672903e-9          , 2.37915512067404232e-9          , 1.41196472026791407e-9          , 8.96123402161214121e-10         , 6.02996136833714833e-10         , 4.26795691886129091e-10         , 3.15476310011662913e-10         , 2.41983870836927211e-10         , 1.91542623748958729e-10         , 1.55715548996376208e-10         , 1.29487896403188625e-10         , 1.09769105013953997e-10         , 9.45910900451331986e-11         , 8.26628655642957707e-11         , 7.31145365915719164e-11         , 6.53454774978442588e-11         , 5.89316838073992823e-11         , 5.35677297499407029e-11         , 4.9029516859594315e-11          , 4.51498284289045691e-11         , 4.18019549855981471e-11         , 3.88885160950064695e-11         , 3.63336944061836979e-11         , 3.40777518708911192e-11         , 3.2073098582900285e-11          , 3.02814348218962514e-11         , },
+/* x = 20.8        */  {0.194318107951776224            , 0.00467110834196250485          , 0.000336858752397872416         , 0.0000404878085541668275        , 6.81283013805638788e-6          , 1.47390733429051524e-6          , 3.8971284954744257e-7           , 1.21763002598430207e-7          , 4.38826659364037581e-8          , 1.79105573292501709e-8          , 8.15803974119462672e-9          , 4.09597833036130734e-9          , 2.24234051865993492e-9          , 1.325297522702923e-9            , 8.37906180070243871e-10         , 5.61854403845680198e-10         , 3.96426694643252646e-10         , 2.92210213970446184e-10         , 2.23587054493000971e-10         , 1.76600600821737016e-10         , 1.43300178124782875e-10         , 1.18970463487002928e-10         , 1.00711392016450718e-10         , 8.66797264106612081e-11         , 7.56685365202956906e-11         , 6.68659198903296343e-11         , 5.97121608737989255e-11         , 5.38127044291963221e-11         , 4.88837192680053285e-11         , 4.47172109668155691e-11         , 4.11581592544553493e-11         , 3.80892233765625061e-11         , 3.54203137179486018e-11         , 3.30813550386991122e-11         , 3.10171818638477036e-11         , 2.91838828497287379e-11         , 2.75461456796626043e-11         , },
+/* x = 20.9        */  {0.193852674691638376            , 0.00463762377640277151          , 0.000332843791655640851         , 0.0000398138306286047203        , 6.66736785640445201e-6          , 1.43553762452423732e-6          , 3.77753011177982359e-7          , 1.17462945999684754e-7          , 4.21317269729263963e-8          , 1.7114864976382794e-8           , 7.75943617283074493e-9          , 3.87823342350472956e-9          , 2.11390828262346489e-9          , 1.2442513047521214e-9           , 7.83655088549266267e-10         , 5.23636244999540048e-10         , 3.68294762393248654e-10         , 2.70711115598786073e-10         , 2.06624079402142699e-10         , 1.62849005046204117e-10         , 1.31892551910383082e-10         , 1.09320385200424847e-10         , 9.24108621212995378e-11         , 7.94374705385294607e-11         , 6.92717365637066245e-11         , 6.11558029826238482e-11         , 5.45680245254992467e-11         , 4.91412146627634528e-11         , 4.46115856340679942e-11         , 4.07860730668403809e-11         , 3.75209517702304958e-11         , 3.47075485893806818e-11         , 3.22625127794984499e-11         , 3.01210718593170215e-11         , 2.82322796082845142e-11         , 2.655561641204985e-11           , 2.50585224475500384e-11         , },
+/* x = 21.0        */  {0.193390569924979533            , 0.00460453736111246404          , 0.000328895507740032127         , 0.000039154209058193282         , 6.52568345598357578e-6          , 1.39834268685260454e-6          , 3.66214554746091876e-7          , 1.13334070372771505e-7          , 4.04583999892566995e-8          , 1.63579653279660167e-8          , 7.38197821877531254e-9          , 3.67293539408310411e-9          , 1.99331566716952866e-9          , 1.16844370562969109e-9          , 7.33088666885963544e-10         , 4.88126554688136955e-10         , 3.42230170298596546e-10         , 2.50841418501487984e-10         , 1.90980800113354495e-10         , 1.50191275271498229e-10         , 1.21409611733267625e-10         , 1.0046519138744719e-10          , 8.48035044492628211e-11         , 7.28071823196580066e-11         , 6.3420988719827039e-11          , 5.59374382019127199e-11         , 4.98703167977704296e-11         , 4.48778749402533832e-11         , 4.07149304505415572e-11         , 3.72022617354685259e-11         , 3.42066047524155323e-11         , 3.16273058834799238e-11         , 2.93872435206677268e-11         , 2.74265425250526564e-11         , 2.56981501520794597e-11         , 2.41646742310069535e-11         , 2.27960911335786435e-11         , },
+/* x = 21.1        */  {0.192931754167779802            , 0.00457184249956590906          , 0.000325012483710883583         , 0.0000385085718591463968        , 6.3876615382840002e-6           , 1.36228122621128039e-6          , 3.55080743836116468e-7          , 1.09368805010178785e-7          , 3.88589094007751761e-8          , 1.56378047718769822e-8          , 7.02445953141453358e-9          , 3.47932587013592086e-9          , 1.88005679083310035e-9          , 1.09751946281654416e-9          , 6.85946138769605387e-10         , 4.55126530434815431e-10         , 3.18076398187439178e-10         , 2.32474471569103029e-10         , 1.7655232381396353e-10          , 1.38538804292590179e-10         , 1.11775235247432985e-10         , 9.23385356676636806e-11         , 7.78307723635116877e-11         , 6.6736642568452154e-11          , 5.80692834300451705e-11         , 5.11681622773191542e-11         , 4.55800435112306119e-11         , 4.09868214721771892e-11         , 3.71605862796303403e-11         , 3.39349520845873069e-11         , 3.1186344384391139e-11          , 2.8821530035035887e-11          , 2.67691457876283373e-11         , 2.49738397210070351e-11         , 2.3392152164410576e-11          , 2.19895748667057986e-11         , 2.07384212219612951e-11         , },
+/* x = 21.2        */  {0.19247618858864868             , 0.0045395327350905929           , 0.000321193339256232023         , 0.0000378765583838117729        , 6.25319075186654411e-6          , 1.32731358394476313e-6          , 3.44335580562534293e-7          , 1.05559946692735978e-7          , 3.73296790766532854e-8          , 1.49524466217491861e-8          , 6.68574712906354184e-9          , 3.29669533418382115e-9          , 1.77366002701149822e-9          , 1.03114842297988428e-9          , 6.41985846215012112e-10         , 4.24452405643749747e-10         , 2.9568908099094057e-10          , 2.15493682352846152e-10         , 1.63242248618142768e-10         , 1.27810274951200953e-10         , 1.02919650522558377e-10         , 8.48796728887861203e-11         , 7.14391130489962546e-11         , 6.11781260911431481e-11         , 5.31736883335699524e-11         , 4.68090374387869267e-11         , 4.16616360480606435e-11         , 3.74353577737465125e-11         , 3.39183286937664201e-11         , 3.09560659104793389e-11         , 2.84339704664603542e-11         , 2.62656758847575384e-11         , 2.43851424480981825e-11         , 2.27411961836325445e-11         , 2.12936934755428893e-11         , 2.00107855866060704e-11         , 1.88669395214308732e-11         , },
+/* x = 21.3        */  {0.192023834995020999            , 0.00450760174726035462          , 0.000317436729578665996         , 0.0000372578189240243553        , 6.12216363235394473e-6          , 1.29340166575805307e-6          , 3.33963769799205213e-7          , 1.01900640316836292e-7          , 3.5867321006105696e-8           , 1.43000640190458944e-8          , 6.36477667768615641e-9          , 3.12437982016355761e-9          , 1.67368558618122288e-9          , 9.69023703335418816e-10         , 6.00983805108323419e-10         , 3.95934282997644337e-10         , 2.74935044142846104e-10         , 1.99791703386671151e-10         , 1.50961965401215021e-10         , 1.1793105228646069e-10          , 9.47789001579867723e-11         , 7.80329815501344429e-11         , 6.55795378923486067e-11         , 5.60880120355388945e-11         , 4.86949923293098038e-11         , 4.28245242181795772e-11         , 3.80826488893292968e-11         , 3.41936736782329186e-11         , 3.09606140812460123e-11         , 2.82400260607815095e-11         , 2.59256254728727385e-11         , 2.39374005024297336e-11         , 2.2214233314820254e-11          , 2.0708809225858829e-11          , 1.93840452040096513e-11         , 1.82105452261721957e-11         , 1.71647610003872183e-11         , },
+/* x = 21.4        */  {0.191574655819708063            , 0.00447604334839798686          , 0.000313741344320554558         , 0.0000366520143301062448        , 5.99447644945135989e-6          , 1.26050887315039085e-6          , 3.23950685290392261e-7          , 9.83843606203174953e-8          , 3.44686246513843887e-8          , 1.36789332908416826e-8          , 6.06054809113274245e-9          , 2.96175784318404203e-9          , 1.57972327494678444e-9          , 9.10859991779416318e-10         , 5.62732372722748784e-10         , 3.69415060360960797e-10         , 2.55691416955121311e-10         , 1.85269685374028286e-10         , 1.39630017817299005e-10         , 1.08832626956296041e-10         , 8.72943510697418921e-11         , 7.17475272978697421e-11         , 6.02072301004160349e-11         , 5.14264282478534803e-11         , 4.45973808910869382e-11         , 3.91821831344081159e-11         , 3.48134839800051704e-11         , 3.12345893791981639e-11         , 2.82623408959183738e-11         , 2.5763532840111091e-11          , 2.36395843938308821e-11         , 2.18163650119881119e-11         , 2.02373077159966924e-11         , 1.88586629913362708e-11         , 1.7646172778246204e-11          , 1.65727031819718565e-11         , 1.56165350562946075e-11         , },
+/* x = 21.5        */  {0.191128614107793203            , 0.00444485148018343408          , 0.000310105906526622427         , 0.0000360588156448273086        , 5.87002906065705337e-6          , 1.22860003814827012e-6          , 3.14282337537048978e-7          , 9.50048949405528253e-8          , 3.31305469434983058e-8          , 1.30874277325954876e-8          , 5.7721214274755589e-9           , 2.80824754509584896e-9          , 1.49139041858928591e-9          , 8.56391975043416656e-10         , 5.27039018332721349e-10         , 3.44749441715899708e-10         , 2.37844817565759518e-10         , 1.71836591669879824e-10         , 1.29171515594896794e-10         , 1.00452105561533714e-10         , 8.04122460240600738e-11         , 6.59766639330518918e-11         , 5.52811863082790621e-11         , 4.71569266513331655e-11         , 4.08481398778471419e-11         , 3.58524027011460064e-11         , 3.18271395324003406e-11         , 2.85333222639996831e-11         , 2.58006322477849045e-11         , 2.35053604711280902e-11         , 2.1556063486775015e-11          , 1.98840542983266102e-11         , 1.84369740216126689e-11         , 1.7174366826502135e-11          , 1.60645823141956131e-11         , 1.50825730654480379e-11         , 1.42083058088739305e-11         , },
+/* x = 21.6        */  {0.190685673503861391            , 0.00441402021036392712          , 0.000306529171642408378         , 0.0000354779037516736683        , 5.74872477134204295e-6          , 1.1976413611652538e-6           , 3.04945343358295587e-7          , 9.17563269425560236e-8          , 3.18502028796045819e-8          , 1.25240117873577657e-8          , 5.49861306065683177e-9          , 2.66330404014747805e-9          , 1.40832993481411064e-9          , 8.05372884975239595e-10         , 4.93725188771042907e-10         , 3.21803026271709001e-10         , 2.21290603587976008e-10         , 1.59408568957888722e-10         , 1.19517596622770598e-10         , 9.27317438800948296e-11         , 7.40832933310482149e-11         , 6.06776686840407718e-11         , 5.07638892127624471e-11         , 4.32461869248123762e-11         , 3.74173853250871808e-11         , 3.28081514237698238e-11         , 2.90989810923575357e-11         , 2.6067274501679026e-11          , 2.35546379206002537e-11         , 2.14461718067546063e-11         , 1.96570462309283866e-11         , 1.81236129783383359e-11         , 1.67974045882615669e-11         , 1.56410083058932032e-11         , 1.46251809507506746e-11         , 1.37267996800782657e-11         , 1.29273851357208657e-11         , },
+/* x = 21.7        */  {0.19024579823955289             , 0.00438354372956253646          , 0.00030300992654720742          , 0.0000349089690368025286        , 5.63047020089424744e-6          , 1.1676003518258264e-6           , 2.9592689703402602e-7           , 8.86330212588704407e-8          , 3.06248566837717851e-8          , 1.1987235594856203e-8           , 5.23919210817757425e-9          , 2.52641694618359271e-9          , 1.3302085473470391e-9           , 7.57573153832139219e-10         , 4.62625261431028191e-10         , 3.00451469450200048e-10         , 2.05932183078227329e-10         , 1.47908369452082175e-10         , 1.10604933720316606e-10         , 8.56185193615340782e-11         , 6.82622914225505442e-11         , 5.58114087779593751e-11         , 4.66210085274451082e-11         , 3.96637459993984893e-11         , 3.42778169265113724e-11         , 3.00247516598599497e-11         , 2.66065328869060369e-11         , 2.38158395309881226e-11         , 2.15053540747283713e-11         , 1.95683496520364454e-11         , 1.79261249333874388e-11         , 1.6519696165334063e-11          , 1.53041947247675239e-11         , 1.42450195794643691e-11         , 1.33151498724188317e-11         , 1.24932381068148377e-11         , 1.17622372862377429e-11         , },
+/* x = 21.8        */  {0.189808953121431268            , 0.00435341634818176297          , 0.000299546988620157951         , 0.0000343517110640914567        , 5.51517515463848519e-6          , 1.13844577259963586e-6          , 2.87214742940223659e-7          , 8.56296089867124902e-8          , 2.94519134953771643e-8          , 1.14757298857607524e-8          , 4.99307709695438775e-9          , 2.39710808793117324e-9          , 1.25671512890307329e-9          , 7.12779170191143183e-10         , 4.33585577819217353e-10         , 2.8057970996592463e-10          , 1.91680380887630142e-10         , 1.37264820345156086e-10         , 1.02375282335721873e-10         , 7.90637395453834846e-11         , 6.29077853217194162e-11         , 5.13420366043006127e-11         , 4.28211277922462613e-11         , 3.63817511102773487e-11         , 3.14044931178909641e-11         , 2.7479673406735502e-11          , 2.43292876490945241e-11         , 2.17602257605279913e-11         , 1.96354590501387654e-11         , 1.78558432021770705e-11         , 1.63483565753545368e-11         , 1.50583336893036099e-11         , 1.39442344078701393e-11         , 1.29740558318479289e-11         , 1.21228288644683918e-11         , 1.1370843793700222e-11          , 1.07023740162781287e-11         , },
+/* x = 21.9        */  {0.189375103519156438            , 0.00432363249339891637          , 0.000296139204838192872         , 0.0000338058382627183344        , 5.40275250125860792e-6          , 1.11014758510105382e-6          , 2.78797149593841967e-7          , 8.27409739912929614e-8          , 2.8328911551782661e-8           , 1.09882011981504879e-8          , 4.75953285076587677e-9          , 2.27492935992624531e-9          , 1.18755916385821403e-9          , 6.70792127742956239e-10         , 4.06463551318400705e-10         , 2.62081257692231801e-10         , 1.78452855870897678e-10         , 1.27412336585062918e-10         , 9.47750657343227074e-11         , 7.30226833528783704e-11         , 5.79817522705111619e-11         , 4.72367109994769426e-11         , 3.93354947868411183e-11         , 3.33747343400452688e-11         , 2.87746258600059379e-11         , 2.51523462517448266e-11         , 2.22485332768291919e-11         , 1.98832959442483931e-11         , 1.79291638269359377e-11         , 1.62940282379333538e-11         , 1.49101316147077699e-11         , 1.37268065566964934e-11         , 1.27055915926486651e-11         , 1.18168847536140566e-11         , 1.10376113511021516e-11         , 1.03495726463968244e-11         , 9.73825928265541047e-12         , },
+/* x = 22.0        */  {0.188944215353953703            , 0.00429418670625015666          , 0.000292785450904628652         , 0.0000332710676267348631        , 5.29311805546215351e-6          , 1.08267689891704761e-6          , 2.70662885029050836e-7          , 7.99622399674630449e-8          , 2.72535148341513359e-8          , 1.05234273948019504e-8          , 4.53786758390795831e-9          , 2.15946073756318709e-9          , 1.12246932169696388e-9          , 6.31426959844027374e-10         , 3.81126843329587423e-10         , 2.44857537437980518e-10         , 1.66173564802056899e-10         , 1.18290473390476936e-10         , 8.77549945313590976e-11         , 6.74542724630316847e-11         , 5.34493140175305278e-11         , 4.34653423961786173e-11         , 3.61377934942906378e-11         , 3.0619406771731505e-11          , 2.63673933860110967e-11         , 2.30239878779011649e-11         , 2.03471948292287938e-11         , 1.81694208332325817e-11         , 1.63720758304749889e-11         , 1.48695798420495883e-11         , 1.35990545771371188e-11         , 1.25135345436016311e-11         , 1.15774060672729609e-11         , 1.07632860246784085e-11         , 1.00498489628763839e-11         , 9.42029020799040924e-12         , 8.86122262455514944e-12         , },
+/* x = 22.1        */  {0.188516255087370082            , 0.00426507363880019392          , 0.000289484630407218803         , 0.0000327471244261217948        , 5.18619046564121898e-6          , 1.05600592283394313e-6          , 2.62801193431282577e-7          , 7.72887582148413796e-8          , 2.62235061473288727e-8          , 1.00802534614005954e-8          , 4.327430186785674e-9            , 2.0503084256066659e-9           , 1.06119213299250667e-9          , 5.94511353260817776e-10         , 3.57452602428904048e-10         , 2.28817284157323447e-10         , 1.54772269189875698e-10         , 1.09843515216773236e-10         , 8.12697176901027652e-11         , 6.23207702228344183e-11         , 4.92784734842991243e-11         , 4.0000359777641246e-11          , 3.32039357410419131e-11         , 2.80944705353476259e-11         , 2.41637693320546922e-11         , 2.1077447660320337e-11          , 1.8609690497552402e-11          , 1.66043458299944861e-11         , 1.49510748860899482e-11         , 1.35703565118236658e-11         , 1.24038353735989877e-11         , 1.14079739164031048e-11         , 1.05497928970333615e-11         , 9.80395990096487501e-12         , 9.15076476651867882e-12         , 8.57468909966669269e-12         , 8.06338043872882712e-12         , },
+/* x = 22.2        */  {0.188091189710309518            , 0.00423628805139475645          , 0.000286235674004548156         , 0.0000322337419288380528        , 5.08189110629583633e-6          , 1.03010791834079484e-6          , 2.55201772959853763e-7          , 7.47160960843888009e-8          , 2.52367806066350418e-8          , 9.65758756715224218e-9          , 4.12760769019496495e-9          , 1.947103134298606e-9            , 1.00349076030702208e-9          , 5.59884835054941313e-10         , 3.35326761604667968e-10         , 2.13875985479712014e-10         , 1.44184081500786368e-10         , 1.02020098159680011e-10         , 7.52775023502847461e-11         , 5.75875057595580617e-11         , 4.54398737249235753e-11         , 3.68164975559844352e-11         , 3.05118708034047984e-11         , 2.57804471828166275e-11         , 2.2146366809824861e-11          , 1.92970640190373992e-11         , 1.70218003093412094e-11         , 1.51750694855614061e-11         , 1.36542002358044972e-11         , 1.23852946442499701e-11         , 1.1314190377806094e-11          , 1.04005243650904069e-11         , 9.61375458929139579e-12         , 8.93044407810322211e-12         , 8.33237436929635624e-12         , 7.80521396948853414e-12         , 7.3375644278722581e-12          , },
+/* x = 22.3        */  {0.1876689867323388              , 0.00420782480999304756          , 0.000283037538639692013         , 0.0000317306611333986803        , 4.98014397499802335e-6          , 1.00495715529379573e-6          , 2.47854754694009691e-7          , 7.22400260570225388e-8          , 2.42913395061976978e-8          , 9.25439737054798442e-9          , 3.93782289599755484e-9          , 1.84949847392439223e-9          , 9.49143856980723388e-10         , 5.27397927031330191e-10         , 3.14643389034196345e-10         , 1.99955367781859547e-10         , 1.34349047585580444e-10         , 9.47728630359505933e-11         , 6.97399400748321208e-11         , 5.32226211625118899e-11         , 4.1906577273928375e-11          , 3.38906006571817308e-11         , 2.80414114201357902e-11         , 2.36595209637971385e-11         , 2.02992961071234828e-11         , 1.76685343122935532e-11         , 1.55705464351168842e-11         , 1.38697327834178628e-11         , 1.24705476270678088e-11         , 1.1304312462379079e-11          , 1.03207523847445624e-11         , 9.48244431723453191e-12         , 8.76110118979859484e-12         , 8.13503808107960727e-12         , 7.58741418187389028e-12         , 7.10499326521390692e-12         , 6.67725656747599127e-12         , },
+/* x = 22.4        */  {0.187249614171256368            , 0.00417967888357751629          , 0.000279889206780109617         , 0.0000312376305115381706        , 4.88087559368591856e-6          , 9.80528869632482686e-7          , 2.40750682641055064e-7          , 6.98565154173141327e-8          , 2.3385284545126547e-8           , 8.86970655422117443e-9          , 3.75753216277142031e-9          , 1.75716945937850763e-9          , 8.97944507313906052e-10         , 4.96911362607253724e-10         , 2.95304088222168886e-10         , 1.86982922330361902e-10         , 1.25211762370503002e-10         , 8.80581366112480941e-11         , 6.46216773069419381e-11         , 4.9196839783798376e-11          , 3.86538641411931295e-11         , 3.12014462443355769e-11         , 2.57740747871371728e-11         , 2.17153957004126856e-11         , 1.86080348186766017e-11         , 1.61787961623318978e-11         , 1.42440840677732661e-11         , 1.26775182488682732e-11         , 1.13901755724346108e-11         , 1.03182225354037578e-11         , 9.4149886505834207e-12          , 8.64577387595768301e-12         , 7.98437759246985637e-12         , 7.41073449705036161e-12         , 6.90927618883236079e-12         , 6.46777720952563461e-12         , 6.07652999628650878e-12         , },
+/* x = 22.5        */  {0.186833040542916369            , 0.00415184534163836837          , 0.00027678968568278473          , 0.0000307544057605362531        , 4.78401491408803355e-6          , 9.56799223044445344e-7          , 2.33880494748814162e-7          , 6.75617164876071686e-8          , 2.25168123893743559e-8          , 8.50259157393561194e-9          , 3.5862233358336692e-9           , 1.66981111689434534e-9          , 8.49699242140187326e-10         , 4.68295361360959336e-10         , 2.77217443655208645e-10         , 1.74891468305323059e-10         , 1.16721016115633373e-10         , 8.18356386567641842e-11         , 5.9890168016116298e-11          , 4.54832538741064442e-11         , 3.56590468628586286e-11         , 2.87295806470153497e-11         , 2.36929372346699334e-11         , 1.9933164073302977e-11          , 1.70593093151939308e-11         , 1.48159192040664349e-11         , 1.30316019365750032e-11         , 1.15885580083769363e-11         , 1.04040199599826325e-11         , 9.41865212127771145e-12         , 8.58912628653048755e-12         , 7.88326469370770454e-12         , 7.27679740982383e-12            , 6.75115643060079808e-12         , 6.29194863530534301e-12         , 5.88788141276790292e-12         , 5.52999528988906826e-12         , },
+/* x = 22.6        */  {0.186419234851300638            , 0.00412431935173034034          , 0.000273738006683667395         , 0.0000302807495648027032        , 4.68949322708770209e-6          , 9.33745264480852453e-7          , 2.27235504868021881e-7          , 6.53519573900331086e-8          , 2.16842095485776257e-8          , 8.15217860776618781e-9          , 3.42341381178693851e-9          , 1.58713718568003896e-9          , 8.04227124244534251e-10         , 4.41428956887730276e-10         , 2.60298508433202867e-10         , 1.63618749773781755e-10         , 1.08829468765470942e-10         , 7.60682127095706473e-11         , 5.55154466824563014e-11         , 4.20571299217463567e-11         , 3.29013011539858425e-11         , 2.64571701886166309e-11         , 2.17825014009417544e-11         , 1.82991882357175026e-11         , 1.5640986555105637e-11          , 1.35690063365537253e-11         , 1.19232316012454018e-11         , 1.05938500017269573e-11         , 9.50381626785475268e-12         , 8.59797063008347508e-12         , 7.83608434484462833e-12         , 7.18831615591978981e-12         , 6.63218281050882586e-12         , 6.15050061714880203e-12         , 5.72996209205800679e-12         , 5.36013560982421768e-12         , 5.03275162631795633e-12         , },
+/* x = 22.7        */  {0.186008166578831486            , 0.00409709617709935242          , 0.000270733224510510379         , 0.0000298164313663362525        , 4.59724407584730697e-6          , 9.11344893430390558e-7          , 2.20807385613397902e-7          , 6.32237333059061972e-8          , 2.08858475485145723e-8          , 7.81764069248273905e-9          , 3.26864872843922172e-9          , 1.50887890773551278e-9          , 7.61358898499678813e-10         , 4.16199373930850098e-10         , 2.44468330618977462e-10         , 1.53107063918920055e-10         , 1.01493350120157397e-10         , 7.0721578588850622e-11          , 5.14699199246342708e-11         , 3.88957302022046728e-11         , 3.03615108338019023e-11         , 2.4367864717059518e-11          , 2.00285748194313524e-11         , 1.68009907674677309e-11         , 1.43419753312688872e-11         , 1.24281036387841321e-11         , 1.09099647477227943e-11         , 9.68518162109982864e-12         , 8.68202870328446475e-12         , 7.84922356951186378e-12         , 7.14941199493004598e-12         , 6.55491730527217905e-12         , 6.04490978415796046e-12         , 5.60348568147338226e-12         , 5.21834041029384881e-12         , 4.87983705460131481e-12         , 4.58034239747395322e-12         , },
+/* x = 22.8        */  {0.185599805676918419            , 0.00407017117437674426          , 0.000267774416618231401         , 0.0000293612271436902664        , 4.50720317252085535e-6          , 8.89576824864185032e-7          , 2.1458815207511348e-7           , 6.11736982038511963e-8          , 2.01201783810725277e-8          , 7.498195035030094e-9            , 3.12149927159454172e-9          , 1.43478389961896256e-9          , 7.20936201981917878e-10         , 3.92501451067703144e-10         , 2.29653515306300468e-10         , 1.43302918048728728e-10         , 9.4672183742322522e-11          , 6.57641048823675364e-11         , 4.77281752197846537e-11         , 3.59781491726172943e-11         , 2.8022125808583134e-11          , 2.24466727476145818e-11         , 1.84181589317268301e-11         , 1.54271550672592936e-11         , 1.31521361250110358e-11         , 1.13841181856328331e-11         , 9.98357777646032718e-12         , 8.85506011604635471e-12         , 7.93178564740934085e-12         , 7.16607239126422944e-12         , 6.52323224175232392e-12         , 5.97759398873263581e-12         , 5.50985834275158969e-12         , 5.10530507495986324e-12         , 4.75255612196551034e-12         , 4.44270814813457559e-12         , 4.16871486089630046e-12         , },
+/* x = 22.9        */  {0.185194122556732157            , 0.00404353979133888314          , 0.000264860682545968124         , 0.0000289149191990945695        , 4.41930831839197923e-6          , 8.68420555768962349e-7          , 2.08570146335136427e-7          , 5.91986570097693461e-8          , 1.9385730214786085e-8           , 7.19310048781716042e-9          , 2.98156109081197708e-9          , 1.36461510038676902e-9          , 6.82810829684676633e-10         , 3.7023710551920127e-10          , 2.15785819643688572e-10         , 1.3415671310763037e-10          , 8.83285326855686417e-11         , 6.11665997660757098e-11         , 4.42668052942172964e-11         , 3.32851634617585654e-11         , 2.58670320015521044e-11         , 2.06798472210947296e-11         , 1.69393476237898625e-11         , 1.41672343609835403e-11         , 1.2062198812854339e-11          , 1.04287430675188852e-11         , 9.13656303724815449e-12         , 8.09664916237236943e-12         , 7.24682084264154258e-12         , 6.54273970945568251e-12         , 5.95219068821806986e-12         , 5.45136075641494746e-12         , 5.02236721215379959e-12         , 4.65158426752181889e-12         , 4.32848988180052833e-12         , 4.04485791499429665e-12         , 3.79418346347374222e-12         , },
+/* x = 23.0        */  {0.184791088080199504            , 0.00401719756473001537          , 0.00026199114329502717          , 0.0000284772959533986855        , 4.33349932728248872e-6          , 8.47856333190132206e-7          , 2.02746022745546462e-7          , 5.72955581933866736e-8          , 1.86811033500974584e-8          , 6.90165517728999508e-9          , 2.8484528167868019e-9           , 1.29814979035230046e-9          , 6.46844051777954166e-10         , 3.49314836915909462e-10         , 2.02801778269837751e-10         , 1.25622451598005998e-10         , 8.24277652874166744e-11         , 5.69021186558202468e-11         , 4.10642468834062986e-11         , 3.07990943123698727e-11         , 2.38814322144653507e-11         , 1.90547809668708799e-11         , 1.55812344621397594e-11         , 1.30116685756363102e-11         , 1.10636875377801669e-11         , 9.55438897900454946e-12         , 8.36206612200463303e-12         , 7.40371104672231842e-12         , 6.62141980984149152e-12         , 5.97395940965100248e-12         , 5.43140888809544007e-12         , 4.97167708384354219e-12         , 4.57819260793748381e-12         , 4.23834180867212053e-12         , 3.94239358400028636e-12         , 3.68274697780436644e-12         , 3.4533965023280677e-12          , },
+/* x = 23.1        */  {0.184390673551212858            , 0.0039911401181463102           , 0.000259164940726961123         , 0.0000280481517485168596        , 4.24971795208422762e-6          , 8.27865123710635219e-7          , 1.97108733928361168e-7          , 5.5461486747662202e-8           , 1.80049664045071771e-8          , 6.62319427597230651e-9          , 2.72181467352321156e-9          , 1.23517867569883103e-9          , 6.12905978666053338e-10         , 3.29649267098482338e-10         , 1.906423568172635e-10           , 1.176574679869955e-10           , 7.69378394133205858e-11         , 5.29457873146781366e-11         , 3.81006326690970857e-11         , 2.85036814297649946e-11         , 2.20517369926273889e-11         , 1.75599110388803793e-11         , 1.43338278781473352e-11         , 1.19517083942679797e-11         , 1.01488521175139746e-11         , 8.75412179776483402e-12         , 7.65382867931941804e-12         , 6.77055396758614143e-12         , 6.05037102848026746e-12         , 5.45493121043129489e-12         , 4.95644187692634148e-12         , 4.53440752794496555e-12         , 4.17347072638708675e-12         , 3.86195390722318652e-12         , 3.59085681996762067e-12         , 3.35315571160858018e-12         , 3.14330581867445392e-12         , },
+/* x = 23.2        */  {0.183992850707048346            , 0.00396536315997912028          , 0.000256381236981038717         , 0.0000276272866570695947        , 4.16790781427419773e-6          , 8.08428584295331702e-7          , 1.91651517458712503e-7          , 5.36936575387688351e-8          , 1.73560527137315504e-8          , 6.35708790881568464e-9          , 2.60130717894632369e-9          , 1.17550503434233208e-9          , 5.80874970376832952e-10         , 3.11160713255005062e-10         , 1.79252631325356633e-10         , 1.10222179828593824e-10         , 7.18291036702116298e-11         , 4.92746391536291997e-11         , 3.53576553014748507e-11         , 2.63839672794392362e-11         , 2.0365464644602183e-11          , 1.61846311646573402e-11         , 1.31879736140447567e-11         , 1.09793458673151969e-11         , 9.31060541756951155e-12         , 8.02160562655855923e-12         , 7.00613626219606903e-12         , 6.19198399801299011e-12         , 5.52892145478718832e-12         , 4.98127927875605208e-12         , 4.52323950556073611e-12         , 4.13578546229775829e-12         , 3.80468361500366066e-12         , 3.51912221091916003e-12         , 3.27077637377143975e-12         , 3.05315528882845744e-12         , 2.86113924823774915e-12         , },
+/* x = 23.3        */  {0.183597591709986741            , 0.00393986248141555509          , 0.000253639213910403244         , 0.0000272145062989300885        , 4.08801433627975372e-6          , 7.89529034434413893e-7          , 1.86367883195374608e-7          , 5.19894090057033012e-8          , 1.67331569358680997e-8          , 6.10273918531462705e-9          , 2.48660992804467469e-9          , 1.11894391877343551e-9          , 5.50637087074955863e-10         , 2.93774791905103498e-10         , 1.68581491573856671e-10         , 1.03279857973085191e-10         , 6.70741142289606728e-11         , 4.58674655678031896e-11         , 3.2818442505945023e-11          , 2.4426190957594255e-11          , 1.88111496405601369e-11         , 1.49192116130234345e-11         , 1.2135283803947084e-11          , 1.00872510103335883e-11         , 8.54246616715890739e-12         , 7.35105081748310935e-12         , 6.41377076385332641e-12         , 5.66326129588310587e-12         , 5.05273599093341752e-12         , 4.54901453620453289e-12         , 4.12811123476381704e-12         , 3.77238006919569255e-12         , 3.46862811723723314e-12         , 3.20684449623061348e-12         , 2.97932847964329478e-12         , 2.78008135191660458e-12         , 2.60437557703874161e-12         , },
+/* x = 23.4        */  {0.183204869139131545            , 0.00391463395449453223          , 0.000250938072536242744         , 0.000026809621664396954         , 4.00998467656714545e-6          , 7.71149429522821318e-7          , 1.81251601224674426e-7          , 5.03461971898396623e-8          , 1.61351318463958032e-8          , 5.85958234941148094e-9          , 2.37742045304587162e-9          , 1.06532141191649483e-9          , 5.2208557773094092e-10          , 2.77422051431670449e-10         , 1.58581366503926413e-10         , 9.67964143662931617e-11         , 6.26474660060628634e-11         , 4.27046782463403523e-11         , 3.04674423579180839e-11         , 2.26176908327269893e-11         , 1.73782586795941577e-11         , 1.3754725845983215e-11          , 1.11680721176481248e-11         , 9.26871386800896608e-12         , 7.83850674198879064e-12         , 6.73716654030138329e-12         , 5.87196703598343042e-12         , 5.18006018452512411e-12         , 4.61786055293879963e-12         , 4.15450032577276869e-12         , 3.76769408011212284e-12         , 3.44106629520285234e-12         , 3.16238761381268577e-12         , 2.9223880048392857e-12          , 2.71394359087363543e-12         , 2.53151007476356498e-12         , 2.37072177429203226e-12         , },
+/* x = 23.5        */  {0.182814655982418753            , 0.00388967353021653844          , 0.000248277032519322747         , 0.0000264124489437269682        , 3.93376766733282018e-6          , 7.53273335415939415e-7          , 1.76296690385725627e-7          , 4.87615900759192357e-8          , 1.5560885312607648e-8           , 5.62708103974682848e-9          , 2.27345315550980135e-9          , 1.01447393232929256e-9          , 4.95120404198822364e-10         , 2.62037631037052793e-10         , 1.49207970037688246e-10         , 9.0740206060933645e-11          , 5.85256370565928758e-11         , 3.97681824816699376e-11         , 2.82903178857312763e-11         , 2.09468152243187104e-11         , 1.60571137770074867e-11         , 1.26829833750687047e-11         , 1.02792944446569462e-11         , 8.51759156979754779e-12         , 7.19330547981716837e-12         , 6.17511749536092379e-12         , 5.3763733198793464e-12          , 4.73843276009633036e-12         , 4.22068841651532633e-12         , 3.79442113855948443e-12         , 3.43892342438152658e-12         , 3.13899750336585722e-12         , 2.88330630814832282e-12         , 2.66326518724602448e-12         , 2.47228343226395336e-12         , 2.30523639568372233e-12         , 2.15809229498864794e-12         , },
+/* x = 23.6        */  {0.182426925628813042            , 0.00386497723670539517          , 0.00024565533164825839          , 0.000026022809362773357         , 3.85931375468271183e-6          , 7.35884904104976815e-7          , 1.71497407346721276e-7          , 4.72332622270736408e-8          , 1.50093774367924549e-8          , 5.40472665330447012e-9          , 2.17443830557805486e-9          , 9.66247585331322231e-10         , 4.69647798159315011e-10         , 2.47560944162757044e-10         , 1.4042006573927325e-10          , 8.50818541724190984e-11         , 5.46868451238188401e-11         , 3.70412605844338755e-11         , 2.62738502320856535e-11         , 1.94028404467463216e-11         , 1.48388217780161811e-11         , 1.16964682923288268e-11         , 9.4624946413007787e-12          , 7.8282599440210221e-12          , 6.60190313280180594e-12         , 5.66048440691834096e-12         , 4.92301515364602946e-12         , 4.33477571276476193e-12         , 3.85792954875676077e-12         , 3.46575412666085944e-12         , 3.13900644008999807e-12         , 2.86358057933786195e-12         , 2.62896582621912086e-12         , 2.42721163566737411e-12         , 2.25222012900362854e-12         , 2.09925422458702481e-12         , 1.96459026366389753e-12         , },
+/* x = 23.7        */  {0.182041651860685237            , 0.00384054117742038504          , 0.000243072225343927616         , 0.0000256405290244863277        , 3.78657494119025633e-6          , 7.18968850458357874e-7          , 1.66848236203708709e-7          , 4.57589896975120132e-8          , 1.44796178581547764e-8          , 5.19203680595964986e-9          , 2.08012110394703696e-9          , 9.20497556893332921e-10         , 4.45579848573900033e-10         , 2.33935384561259604e-10         , 1.32179248882072019e-10         , 7.97940766125800199e-11         , 5.11109153765017934e-11         , 3.45084645839823539e-11         , 2.44058496686832654e-11         , 1.79758956033224728e-11         , 1.37152097549742792e-11         , 1.0788282991775313e-11          , 8.71175490511693781e-12         , 7.19556929507313489e-12         , 6.05976309545657662e-12         , 5.18922796484338917e-12         , 4.50826244859108101e-12         , 3.96580007661459253e-12         , 3.52658265970478863e-12         , 3.16574315315142076e-12         , 2.86539788801979361e-12         , 2.61245327057830807e-12         , 2.39716392199657807e-12         , 2.21216600814307947e-12         , 2.05181722366647082e-12         , 1.91173844491963879e-12         , 1.78849036804849676e-12         , },
+/* x = 23.8        */  {0.181658808846366126            , 0.00381636152941715397          , 0.000240526986179450934         , 0.000025265438756043219         , 3.71550473072909842e-6          , 7.02510429978244489e-7          , 1.6234387857485801e-7           , 4.43366452074728162e-8          , 1.39706632040891631e-8          , 4.98855388386696827e-9          , 1.99026080243748561e-9          , 8.77087547347460409e-10         , 4.22834117469401411e-10         , 2.21108053346364559e-10         , 1.24449744598818505e-10         , 7.48515335276818148e-11         , 4.77791584434885295e-11         , 3.21555174619125885e-11         , 2.26750738176230744e-11         , 1.66568935673103255e-11         , 1.26787657915340428e-11         , 9.95209663875658607e-12         , 8.02165037853888536e-12         , 6.61480398290268032e-12         , 5.56273507874671675e-12         , 4.75765591198543829e-12         , 4.12879945510872048e-12         , 3.62850364858571277e-12         , 3.2239097315994106e-12          , 2.89187515237571735e-12         , 2.61577807861523248e-12         , 2.38346355771947318e-12         , 2.18589509849253261e-12         , 2.01625176373807483e-12         , 1.86931241013379739e-12         , 1.74102854729306223e-12         , 1.62822330692699917e-12         , },
+/* x = 23.9        */  {0.181278371132871801            , 0.00379243454165586008          , 0.000238018903415186007         , 0.0000248973739613857936        , 3.64605807548141116e-6          , 6.86495417523924662e-7          , 1.57979244164729491e-7          , 4.29641935659494097e-8          , 1.34816146820112876e-8          , 4.79384368002280938e-9          , 1.90462987931656439e-9          , 8.35889242187160085e-10         , 4.01333282033537275e-10         , 2.09029505475665934e-10         , 1.1719822089417113e-10          , 7.02306844524971243e-11         , 4.4674257927318214e-11          , 2.99692222280313984e-11         , 2.10711524870188017e-11         , 1.54374676342697791e-11         , 1.17225846994753382e-11         , 9.18209798278009719e-12         , 7.38720761836702842e-12         , 6.08164547541665393e-12         , 5.10702192976950866e-12         , 4.36239300119468e-12            , 3.78159736316586735e-12         , 3.32014583987846754e-12         , 2.94741280526601452e-12         , 2.64185859411218843e-12         , 2.38803280232257106e-12         , 2.17465087531541034e-12         , 1.99333297161654039e-12         , 1.83776054505177624e-12         , 1.70310182880478635e-12         , 1.58561374656757401e-12         , 1.48236165072588983e-12         , },
+/* x = 24.0        */  {0.180900313638795883            , 0.00376875653335509453          , 0.000235547282548207045         , 0.0000245361744789518705        , 3.57819132502745105e-6          , 6.7091008695628368e-7           , 1.53749441774451619e-7          , 4.16396873275505886e-8          , 1.30116158034961674e-8          , 4.60749411070816783e-9          , 1.82301326579192495e-9          , 7.96781817420575688e-10         , 3.81004801150634372e-10         , 1.97653514235897257e-10         , 1.10393615394300728e-10         , 6.59096562706652112e-11         , 4.17801666447464702e-11         , 2.79373782048717196e-11         , 1.95845185776608168e-11         , 1.43099133735554009e-11         , 1.08403182526222846e-11         , 8.4729521440567227e-12          , 6.80386659899266872e-12         , 5.59213857316414823e-12         , 4.68914932283174977e-12         , 4.0003535703325992e-12          , 3.46388930508690795e-12         , 3.03822474430864883e-12         , 2.69481282279551475e-12         , 2.41360386367819507e-12         , 2.18023505237963607e-12         , 1.98422901567430881e-12         , 1.81781421968105161e-12         , 1.67513705909327869e-12         , 1.55172578159288948e-12         , 1.44411944764829993e-12         , 1.34960698625496494e-12         , },
+/* x = 24.1        */  {0.180524611647364136            , 0.00374532389239015157          , 0.00023311144487575985          , 0.0000241816844443977036        , 3.51186217742643127e-6          , 6.55741191659915842e-7          , 1.49649770735044324e-7          , 4.03612626706563978e-8          , 1.25598502329856458e-8          , 4.4291140068634469e-9           , 1.74520762034165254e-9          , 7.5965147712109678e-10          , 3.61780604644136667e-10         , 1.86936852410074234e-10         , 1.04006974795314642e-10         , 6.18681211436988806e-11         , 3.90820109028387287e-11         , 2.60487039389178313e-11         , 1.82063445627445128e-11         , 1.32671352465499668e-11         , 1.00261295576267661e-11         , 7.81976103578545298e-12         , 6.26744594607750832e-12         , 5.14266053185994393e-12         , 4.30593807177549352e-12         , 3.6687165057917138e-12          , 3.17314754891159392e-12         , 2.78045622727128424e-12         , 2.46403034361166092e-12         , 2.2052053868885082e-12          , 1.99062837943119101e-12         , 1.81057056447020902e-12         , 1.65782397559719068e-12         , 1.5269653210783987e-12          , 1.41385573805838456e-12         , 1.31529493751431448e-12         , 1.22877822874850105e-12         , },
+/* x = 24.2        */  {0.180151240799647079            , 0.00372213307373427463          , 0.000230710727072203231         , 0.0000238337521581162949        , 3.44702963220302852e-6          , 6.40975945901648193e-7          , 1.4567571274236872e-7           , 3.91271354847791173e-8          , 1.21255397538058404e-8          , 4.25833197576890917e-9          , 1.67102064777118163e-9          , 7.24391020985758903e-10         , 3.43596803619594452e-10         , 1.76839088905078058e-10         , 9.80113060527484353e-11         , 5.80871836373062258e-11         , 3.65660021750497873e-11         , 2.4292766204391729e-11          , 1.6928484084083207e-11          , 1.23025975955990778e-11         , 9.27465121372480863e-12         , 7.21802711319491443e-12         , 5.77411112362186002e-12         , 4.72989283220868606e-12         , 3.95447883532489565e-12         , 3.36490238526521883e-12         , 2.90706268934799307e-12         , 2.54475485643306482e-12         , 2.25316796734990226e-12         , 2.01492534410870111e-12         , 1.81761173178367913e-12         , 1.65219273046944486e-12         , 1.51198253172503576e-12         , 1.39195613797611629e-12         , 1.28828251570901852e-12         , 1.19800219214543351e-12         , 1.11880099500501e-12            , },
+/* x = 24.3        */  {0.179780177087926397            , 0.00369918059794155375          , 0.000228344480778966599         , 0.0000234922299573651941        , 3.38365394515785596e-6          , 6.26602006986340419e-7          , 1.41822924073357723e-7          , 3.79355976557426159e-8          , 1.17079423446827154e-8          , 4.09479532870466857e-9          , 1.60027046009937106e-9          , 6.90899439866821461e-10         , 3.26393420419292681e-10         , 1.67322399710350777e-10         , 9.23814384283992114e-11         , 5.45492763346565399e-11         , 3.42193555929029516e-11         , 2.26599146091878212e-11         , 1.57434182461379517e-11         , 1.14102796409019531e-11         , 8.58094694312565601e-12         , 6.66362016684943634e-12         , 5.3203453213015735e-12          , 4.35079536829838512e-12         , 3.63210900721717717e-12         , 3.08655260893770351e-12         , 2.66352466042291335e-12         , 2.32921651117582545e-12         , 2.060494311839529e-12           , 1.84117883159637578e-12         , 1.65972564824931852e-12         , 1.50774444411397406e-12         , 1.37903323909282049e-12         , 1.26893571978938356e-12         , 1.17390552811974091e-12         , 1.09120569713977021e-12         , 1.01869794110399989e-12         , },
+/* x = 24.4        */  {0.179411396849211014            , 0.0036764630496701953           , 0.000226012072207071768         , 0.000023156974092825312         , 3.32169658492404855e-6          , 6.12607458172803725e-7          , 1.38087228164287415e-7          , 3.67850135379533049e-8          , 1.13063503603623864e-8          , 3.93816907054396412e-9          , 1.53278497657213523e-9          , 6.59081537385240182e-10         , 3.10114136808307484e-10         , 1.58351392143290331e-10         , 8.70938955789696712e-11         , 5.12380632822746208e-11         , 3.20302147158892269e-11         , 2.11412213526480639e-11         , 1.46442062239254768e-11         , 1.05846341530763047e-11         , 7.94047640071428104e-12         , 6.15274690192964247e-12         , 4.90292281081671427e-12         , 4.00258284573018795e-12         , 3.33639160111065295e-12         , 2.83151034506768493e-12         , 2.4406054094945279e-12          , 2.1321025222969469e-12          , 1.88442940801666208e-12         , 1.6825203410211223e-12          , 1.5156396824821157e-12          , 1.37599461098955097e-12         , 1.25783149338571191e-12         , 1.1568353166998423e-12          , 1.06972300417562427e-12         , 9.93963190020473454e-13         , 9.275799769740706e-13           , },
+/* x = 24.5        */  {0.179044876758898891            , 0.00365397707624492944          , 0.000223712881751784487         , 0.0000228278446094198771        , 3.26112019119572823e-6          , 5.98980792314553013e-7          , 1.3446460853289034e-7           , 3.56738166036554688e-8          , 1.09200888103341954e-8          , 3.78813494749438504e-9          , 1.46840136028442572e-9          , 6.28847575867683358e-10         , 2.94706059112250239e-10         , 1.4989294141530205e-10          , 8.21267769338102004e-11         , 4.81383506657967405e-11         , 2.99875820853723148e-11         , 1.97284257216496094e-11         , 1.36244398326792e-11            , 9.8205494969933647e-12          , 7.34906289645481009e-12         , 5.68192306731003438e-12         , 4.51888455995665203e-12         , 3.68270319880803699e-12         , 3.06509595688820836e-12         , 2.59780313124625879e-12         , 2.23654308647150346e-12         , 1.95182520666396233e-12         , 1.7235313859196408e-12          , 1.53763143961151014e-12         , 1.38414094858415447e-12         , 1.25582141647301824e-12         , 1.1473347098233596e-12          , 1.05468178942985398e-12         , 9.74823090517238522e-13         , 9.05417240596610798e-13         , 8.44638278079670157e-13         , },
+/* x = 24.6        */  {0.178680593824580661            , 0.00363171938625736347          , 0.000221446303618977902         , 0.0000225047052312299157        , 3.20188853455755594e-6          , 5.85710896191876957e-7          , 1.30951202027093279e-7          , 3.46005062596454353e-8          , 1.05485137300208195e-8          , 3.64439054944505535e-9          , 1.40696548906095209e-9          , 6.00112944972007824e-10         , 2.80119499119897786e-10         , 1.4191603862480154e-10          , 7.74596476669193637e-11         , 4.52360041602327777e-11         , 2.80812551079269761e-11         , 1.84138829452110025e-11         , 1.26782017362840692e-11         , 9.11331476799393648e-12         , 6.80286378647468775e-12         , 5.24794791846043319e-12         , 4.16551591131279963e-12         , 3.38881785268022558e-12         , 2.81618011013743327e-12         , 2.3836269865757184e-12          , 2.04972761500310474e-12         , 1.78693467353568427e-12         , 1.57648433713930386e-12         , 1.40530954389698038e-12         , 1.26412368765676743e-12         , 1.146202587192153e-12           , 1.04659319788408037e-12         , 9.61589028562120709e-13         , 8.88375757244983789e-13         , 8.24787593347459274e-13         , 7.69137021757331776e-13         , },
+/* x = 24.7        */  {0.178318525379981388            , 0.00360968674820313005          , 0.000219211745462806211         , 0.0000221874232503495488        , 3.14396647784784405e-6          , 5.72787035503385652e-7          , 1.27543292384086982e-7          , 3.35636448224652941e-8          , 1.01910106391423921e-8          , 3.50664846360476564e-9          , 1.3483314584037511e-9           , 5.72797851480435836e-10         , 2.66307769649894361e-10         , 1.34391649350245268e-10         , 7.30734366216878426e-11         , 4.25178724429899724e-11         , 2.63017668499483065e-11         , 1.7190517058766221e-11          , 1.18000269982100189e-11         , 8.45858776494995744e-12         , 6.29834330946974777e-12         , 4.84788081666026028e-12         , 3.84032614921353019e-12         , 3.11878367144465704e-12         , 2.58777468041813927e-12         , 2.18733190273777376e-12         , 1.8786875241778069e-12          , 1.63610679020609241e-12         , 1.44208724931360894e-12         , 1.28445768958771071e-12         , 1.15457976397635893e-12         , 1.04620652342743106e-12         , 9.54741854872173194e-13         , 8.76750146183167144e-13         , 8.096254341908785e-13           , 7.51364202711089389e-13         , 7.00406782332885544e-13         , },
+/* x = 24.8        */  {0.177958649079036819            , 0.00358787598915471866          , 0.000217008628034302077         , 0.0000218758694195309969        , 3.08731993899080718e-6          , 5.60198840486780702e-7          , 1.24237304084307377e-7          , 3.25618546436099608e-8          , 9.84699308228241071e-9          , 3.37463547632780527e-9          , 1.29236111446142055e-9          , 5.46827028845725624e-10         , 2.53226993760279208e-10         , 1.272925820779262e-10           , 6.89503415960114262e-11         , 3.99717163980340866e-11         , 2.46403313588148391e-11         , 1.60517774576421175e-11         , 1.09848677031377711e-11         , 7.8523655660132433e-12          , 5.8322476639652384e-12          , 4.47901978388576836e-12         , 3.54102979365418096e-12         , 2.87063644702817498e-12         , 2.37816814654200726e-12         , 2.00740859352253411e-12         , 1.72207792999614064e-12         , 1.4981322045958627e-12          , 1.31924391755910855e-12         , 1.17407520885138152e-12         , 1.05459000766917028e-12         , 9.5498422431408716e-13          , 8.7099260463602474e-13          , 7.99430370151228712e-13         , 7.37884311659106042e-13         , 6.8450089844027526e-13          , 6.37838525149574183e-13         , },
+/* x = 24.9        */  {0.177600942890100603            , 0.0035662839934689167           , 0.000214836384840526073         , 0.0000215699178484754758        , 3.03191585523647909e-6          , 5.47936292140093181e-7          , 1.21029796485729991e-7          , 3.15938153767634229e-8          , 9.5159012469835325e-9           , 3.24809182022185998e-9          , 1.23892361511132358e-9          , 5.22129465174023491e-10         , 2.4083592665323524e-10          , 1.20593365756213969e-10         , 6.50737414406897956e-11         , 3.75861435764774845e-11         , 2.30887931566139894e-11         , 1.49915988453179981e-11         , 1.02280603998936665e-11         , 7.29095749246265692e-12         , 5.40158213924936295e-12         , 4.13888184814856499e-12         , 3.26552947387475803e-12         , 2.64257579624375033e-12         , 2.18579338859499842e-12         , 1.84247639296645738e-12         , 1.57866956565991932e-12         , 1.37190633149699556e-12         , 1.20695374620300023e-12         , 1.0732492341796319e-12          , 9.6331632821632404e-13          , 8.71761934734345819e-13         , 7.94627514394346224e-13         , 7.28960577594521284e-13         , 6.72526245530272718e-13         , 6.23609623898864918e-13         , 5.80878145088234227e-13         , },
+/* x = 25.0        */  {0.177245385090279095            , 0.00354490770152782302          , 0.000212694461813910504         , 0.0000212694459036321731        , 2.97772214874962694e-6          , 5.35989709016055549e-7          , 1.17917458224654922e-7          , 3.06582613795329803e-8          , 9.19720065498259482e-9          , 3.12677046381678296e-9          , 1.18789501737307824e-9          , 4.98638148419393582e-10         , 2.29095789395621767e-10         , 1.14270135820511603e-10         , 6.14281144657769853e-11         , 3.53505475128513711e-11         , 2.16395805806685697e-11         , 1.40043643059419756e-11         , 9.52529613686010248e-12         , 6.77096026397719542e-12         , 5.00359012860293202e-12         , 3.82518502815512384e-12         , 3.01190024691412609e-12         , 2.43295134492343307e-12         , 2.00921538692874668e-12         , 1.69127220189089133e-12         , 1.44733876862942875e-12         , 1.25642021744791406e-12         , 1.10430336189342505e-12         , 9.81146955259224148e-13         , 8.79994529906604082e-13         , 7.95834449186776569e-13         , 7.24992528676058065e-13         , 6.64731409979595072e-13         , 6.12981212073376985e-13         , 5.68155195361979827e-13         , 5.29021500114730942e-13         , },
+/* x = 25.1        */  {0.176891954259890405            , 0.00352374410851243174          , 0.000210582316991453465         , 0.0000209743341113732282        , 2.92470769349165994e-6          , 5.24349734563618942e-7          , 1.1489710186989123e-7           , 2.97539792425760436e-8          , 8.8903809224576106e-9           , 3.01043644124523462e-9          , 1.13915788948985768e-9          , 4.762898276497691e-10           , 2.17970113638965875e-10         , 1.08300528081783755e-10         , 5.79989626880390235e-11         , 3.32550515275802648e-11         , 2.02856626710435422e-11         , 1.30848712525066634e-11         , 8.87259287986316395e-12         , 6.28923516506642782e-12         , 4.63573386790813337e-12         , 3.53583181903647567e-12         , 2.77837523804713275e-12         , 2.24025008851630646e-12         , 1.84711997792159391e-12         , 1.55264039142541259e-12         , 1.32705834051979387e-12         , 1.15075220675192601e-12         , 1.01045896619030958e-12         , 8.97008561837554906e-13         , 8.03927766530146411e-13         , 7.26559013739771743e-13         , 6.61491764880542435e-13         , 6.06187917303443599e-13         , 5.5873026276351258e-13          , 5.1765053510119479e-13          , 4.81809894892080487e-13         , },
+/* x = 25.2        */  {0.176540629277044512            , 0.00350279026320781796          , 0.000208499420203431888         , 0.0000206844660644181091        , 2.87284228334206398e-6          , 5.13007324991901519e-7          , 1.11965658817940029e-7          , 2.88798054394143077e-8          , 8.59495458540625691e-9          , 2.89886621954696628e-9          , 1.0926009461240693e-9           , 4.55024789322741836e-10         , 2.07424596581027689e-10         , 1.02663579916397331e-10         , 5.47727414881639128e-11         , 3.12904566749501338e-11         , 1.90205093290513376e-11         , 1.22283000222108613e-11         , 8.26627011980383762e-12         , 5.84288705741022344e-12         , 4.29567675594706316e-12         , 3.268894052669898e-12           , 2.56333249058608896e-12         , 2.06308482811720779e-12         , 1.69830357504448483e-12         , 1.42552358011732195e-12         , 1.21688920330787081e-12         , 1.05406033801687346e-12         , 9.24659362136137093e-13         , 8.20140811557402455e-13         , 7.34480578226587585e-13         , 6.63349772471331589e-13         , 6.03582319968792848e-13         , 5.52824683704460408e-13         , 5.09300933907383269e-13         , 4.71652335324260218e-13         , 4.3882597358642351e-13          , },
+/* x = 25.3        */  {0.176191389312341317            , 0.00348204326683898963          , 0.000206445252771314764         , 0.000020399728331386007         , 2.82209660140830407e-6          , 5.01953737633060745e-7          , 1.09120174417426981e-7          , 2.80346240906064778e-8          , 8.31045598650660469e-9          , 2.79184710135868201e-9          , 1.04811870521644245e-9          , 4.34786647582654569e-10         , 1.97426965465179543e-10         , 9.73396382364924574e-11         , 5.17367942790973542e-11         , 2.94481935223488744e-11         , 1.78380544926846815e-11         , 1.14301849090044321e-11         , 7.70292549312618373e-12         , 5.4292450866145963e-12          , 3.98126712480235237e-12         , 3.02259901687601229e-12         , 2.36528292218771349e-12         , 1.90018358963393047e-12         , 1.56166377173566218e-12         , 1.30895420853907552e-12         , 1.11597278206566455e-12         , 9.65575406848023623e-13         , 8.46209595131839402e-13         , 7.49911167184676291e-13         , 6.710734585163177e-13           , 6.05672709615121624e-13         , 5.50769542347478987e-13         , 5.04181391099128628e-13         , 4.64263069973742936e-13         , 4.29757113937115356e-13         , 3.99689984714722623e-13         , },
+/* x = 25.4        */  {0.17584421382368361             , 0.00346150027193650085          , 0.000204419307214569594         , 0.0000201200103693598583        , 2.77244219047542986e-6          , 4.91180519781726335e-7          , 1.06357803311649976e-7          , 2.72173648363047005e-8          , 8.03644022002755127e-9          , 2.68917666089168245e-9          , 1.00561116515297369e-9          , 4.1552214765829812e-10          , 1.87946850963975466e-10         , 9.23102737584347166e-11         , 4.88792918170636672e-11         , 2.77202774709437656e-11         , 1.67326620950463322e-11         , 1.06863874402682265e-11         , 7.17941325272608013e-12         , 5.04584494448743914e-12         , 3.69052333984462736e-12         , 2.79531672761272962e-12         , 2.18285929363079364e-12         , 1.75037994178115467e-12         , 1.43619074985848844e-12         , 1.20204684197171018e-12         , 1.02352405058374335e-12         , 8.84594636024317738e-13         , 7.74475153748709033e-13         , 6.85742452613648784e-13         , 6.13177904198862629e-13         , 5.53041043016290624e-13         , 5.02602727148095524e-13         , 4.59838781372503e-13            , 4.23225023249107171e-13         , 3.9159762663947516e-13          , 3.64056384261804719e-13         , },
+/* x = 25.5        */  {0.175499082551202029            , 0.00344115848123095227          , 0.00020242108696606653          , 0.0000198452044393503705        , 2.72385142454880077e-6          , 4.80679497989714754e-7          , 1.03675804988688389e-7          , 2.6427000811552835e-8           , 7.77248213155956974e-9          , 2.59066221123055327e-9          , 9.64983500973059677e-10         , 3.97180981503525188e-10         , 1.78955668839737464e-10         , 8.7558201122332705e-11          , 4.61891758146767527e-11         , 2.60992673504148467e-11         , 1.56990945903606196e-11         , 9.99307172014572156e-12         , 6.69282444020846289e-12         , 4.69041255947538195e-12         , 3.42162011892296566e-12         , 2.58554825728182244e-12         , 2.01480610409117093e-12         , 1.61260413587517735e-12         , 1.320959424150288e-12           , 1.10399113782147969e-12         , 9.38825181851506216e-13         , 8.10475899679631021e-13         , 7.08876680939432524e-13         , 6.27107981550568754e-13         , 5.60311905039508022e-13         , 5.0501102848904592e-13          , 4.58671196869436187e-13         , 4.19414981216562838e-13         , 3.85830195824334564e-13         , 3.56839603086479167e-13         , 3.31610746366105362e-13         , },
+/* x = 25.6        */  {0.175155975512289159            , 0.00342101514657553308          , 0.000200450106095795587         , 0.0000195752055245529832        , 2.67629748144542359e-6          , 4.70442767795773786e-7          , 1.01071539529068694e-7          , 2.56625467189980178e-8          , 7.51817536952687018e-9          , 2.49612030110863829e-9          , 9.26145778434953409e-10         , 3.79715614881631029e-10         , 1.70426509318027359e-10         , 8.30672044483627161e-11         , 4.3656106541235946e-11          , 2.45782270410415924e-11         , 1.47324838491753216e-11         , 9.34668167633345138e-12         , 6.24046862260074018e-12         , 4.36084909847098605e-12         , 3.17287596964561631e-12         , 2.39191503048744858e-12         , 1.85997033430561305e-12         , 1.48587499705546262e-12         , 1.2151222591229266e-12          , 1.01404541997090825e-12         , 8.61219750468816793e-13         , 7.42632452740906035e-13         , 6.48885150512440057e-13         , 5.73527116888597308e-13         , 5.12035834021764456e-13         , 4.61178138297162711e-13         , 4.18600732777506831e-13         , 3.8256215695361412e-13          , 3.51753892995688379e-13         , 3.25178777777140569e-13         , 3.02066953665314049e-13         , },
+/* x = 25.7        */  {0.174814872996740007            , 0.00340106756789578711          , 0.000198505889042622812         , 0.0000193099112512950435        , 2.62975431639137123e-6          , 4.60462683871080114e-7          , 9.85424635414991835e-8          , 2.4923056993981832e-8           , 7.27313148562070542e-9          , 2.40537623943052083e-9          , 8.89012684831841919e-10         , 3.63081125148744341e-10         , 1.62334033649764565e-10         , 7.88220679459317689e-11         , 4.12704141190065479e-11         , 2.31506898954857721e-11         , 1.38283042400162984e-11         , 8.74392006025907872e-12         , 5.81985706781802636e-12         , 4.055217172880268e-12           , 2.94274165212274809e-12         , 2.21314900610528155e-12         , 1.7172929657452511e-12          , 1.36929250263258948e-12         , 1.11790270039903707e-12         , 9.31530807321626773e-13         , 7.90107438719489597e-13         , 6.80528121185053472e-13         , 5.94017467742349043e-13         , 5.2456122253098629e-13          , 4.67948702453443403e-13         , 4.21173580280911428e-13         , 3.82050325573467312e-13         , 3.48963469631404185e-13         , 3.2070045996270195e-13          , 2.96338188992319735e-13         , 2.7516464193061286e-13          , },
+/* x = 25.8        */  {0.174475755561996173            , 0.00338131309216581236          , 0.00019658797035382135          , 0.000019049221812574638         , 2.58419663658463246e-6          , 4.50731850562136853e-7          , 9.60861262776758686e-8          , 2.4207624057254956e-8           , 7.03697908146111972e-9          , 2.31826364591876885e-9          , 8.53503275523760577e-10         , 3.47235049042023444e-10         , 1.54654377374728233e-10         , 7.48085112197217716e-11         , 3.90230532461613455e-11         , 2.18106257501572987e-11         , 1.29823477291533692e-11         , 8.18172906262594533e-12         , 5.42868724343693179e-12         , 3.7717281507093812e-12          , 2.7297895823082066e-12          , 2.0480836713967842e-12          , 1.58580121006781617e-12         , 1.26203098880793259e-12         , 1.02858916750795398e-12         , 8.55825848397816646e-13         , 7.24939202281516333e-13         , 6.23672912603836425e-13         , 5.4383245664047669e-13          , 4.79809972828386922e-13         , 4.2768474740915547e-13          , 3.84661127158838712e-13         , 3.48709216675279703e-13         , 3.18330303359123538e-13         , 2.92400676249978118e-13         , 2.70065721524924108e-13         , 2.50666875924558246e-13         , },
+/* x = 25.9        */  {0.174138604028491117            , 0.00336174911241012935          , 0.000194695894432123001         , 0.0000187930398940964941        , 2.53959987668453372e-6          , 4.41243112813594436e-7          , 9.37001659176240758e-8          , 2.35153766508204886e-8          , 6.80936299895165356e-9          , 2.2346240263622864e-9           , 8.19540735217601672e-10         , 3.32137239825443246e-10         , 1.47365059833465631e-10         , 7.10131289425669077e-11         , 3.69055610972515742e-11         , 2.05524103322127546e-11         , 1.21907008433768423e-11         , 7.65727241736990025e-12         , 5.06482853274655494e-12         , 3.50873048455497239e-12         , 2.53270409818472897e-12         , 1.89564578019109894e-12         , 1.46460138873633767e-12         , 1.16333293207452186e-12         , 9.46529559765010903e-13         , 7.86361618085146167e-13         , 6.65212855418291346e-13         , 5.71619010144681053e-13         , 4.97927199735183304e-13         , 4.38907987900202423e-13         , 3.90910321900327803e-13         , 3.51334228267278633e-13         , 3.18294204037907164e-13         , 2.90399742293223993e-13         , 2.66609384594035613e-13         , 2.46131871145048156e-13         , 2.28358035513966338e-13         , },
+/* x = 26.0        */  {0.173803399475093974            , 0.00334237306673047857          , 0.000192829215290045128         , 0.0000185412706027141656        , 2.49594017519057945e-6          , 4.3198954745434975e-7           , 9.1382306017477292e-8           , 2.28454782526572449e-8          , 6.58994355193905019e-9          , 2.15430637103722673e-9          , 7.87052153089985471e-10         , 3.17749733189646761e-10         , 1.40444899506419465e-10         , 6.74233345890850634e-11         , 3.49100181707160267e-11         , 1.9370796883128874e-11          , 1.14497233528640725e-11         , 7.16791887723944361e-12         , 4.72630907067917696e-12         , 3.26469897282819659e-12         , 2.35027251754300658e-12         , 1.75484777290769125e-12         , 1.35287240782629614e-12         , 1.07250325623307695e-12         , 8.71126231055601769e-13         , 7.22617236416560807e-13         , 6.10469039022716855e-13         , 5.23957116156551319e-13         , 4.5593369924128842e-13          , 4.01521765936348369e-13         , 3.57321060811177482e-13         , 3.2091337848881734e-13          , 2.90547188783310917e-13         , 2.64932273900997786e-13         , 2.43103333140452442e-13         , 2.24327710742844111e-13         , 2.08041892974588599e-13         , },
+/* x = 26.1        */  {0.173470123234649488            , 0.00332318243735683128          , 0.000190987496311256684         , 0.0000182938213971913505        , 2.45319435167518255e-6          , 4.22964454831067399e-7          , 8.91303521120079832e-8          , 2.21971255663061133e-8          , 6.37839579692848718e-9          , 2.07716677495899642e-9          , 7.55968310906058685e-10         , 3.04036621342960991e-10         , 1.33873934788571535e-10         , 6.4027307946161297e-11          , 3.30290118701472481e-11         , 1.82608898335172706e-11         , 1.07560285424208184e-11         , 6.71122695354824402e-12         , 4.41130361014405885e-12         , 3.038224878365163e-12           , 2.18137692206077946e-12         , 1.62478082145255343e-12         , 1.24985977773546223e-12         , 9.88904120180596389e-13         , 8.01831393176616117e-13         , 6.64115772815814575e-13         , 5.6028753810225813e-13          , 4.80313114841973409e-13         , 4.17515831257468746e-13         , 3.67346886149560337e-13         , 3.26639298048953849e-13         , 2.93143721385393024e-13         , 2.65232941046189494e-13         , 2.41709698148154179e-13         , 2.21679211709916879e-13         , 2.04463039910260454e-13         , 1.89539864156318454e-13         , },
+/* x = 26.2        */  {0.173138756889611648            , 0.00330417474972192136          , 0.000189170310018755644         , 0.0000180506020211986625        , 2.41133988483630401e-6          , 4.14161350774015813e-7          , 8.69421884646157719e-8          , 2.15695470815209455e-8          , 6.17440884073486058e-9          , 2.0030680787058233e-9           , 7.26223483341663245e-10         , 2.90963934768462584e-10         , 1.27633349835250967e-10         , 6.08139461369043024e-11         , 3.12556026219260959e-11         , 1.72181203764955733e-11         , 1.01064649496922525e-11         , 6.28493082122816017e-12         , 4.11812233655528369e-12         , 2.82800683482932741e-12         , 2.02498660784074483e-12         , 1.5046084468317137e-12          , 1.15487013179914024e-12         , 9.1195014548611776e-13          , 7.38142910884709819e-13         , 6.10420502401947345e-13         , 5.1428391822539264e-13          , 4.40345025924753238e-13         , 3.82366567144516944e-13         , 3.36105458392151252e-13         , 2.98611712550537855e-13         , 2.67792865612482231e-13         , 2.42137065383542754e-13         , 2.20533224092395779e-13         , 2.021518646317133e-13           , 1.86364701375944227e-13         , 1.72689417751971371e-13         , },
+/* x = 26.3        */  {0.172809282267768735            , 0.00328534757155862793          , 0.000187377237849638356         , 0.0000178115244384655045        , 2.37035489133749598e-6          , 4.05573958880821688e-7          , 8.4815774957847823e-8           , 2.09620017023912286e-8          , 5.97768518307272538e-9          , 1.93187952863105051e-9          , 6.97755249767051054e-10         , 2.78499531157129235e-10         , 1.21705405140131142e-10         , 5.77728179136920947e-11         , 2.95832923465135399e-11         , 1.62382237985897015e-11         , 9.49809945842597691e-12         , 5.88692729819359085e-12         , 3.84520055501333308e-12         , 2.63284247704218564e-12         , 1.88015114755838175e-12         , 1.39356066172660252e-12         , 1.06726620173326138e-12         , 8.41104046291300431e-13         , 6.79600454992714082e-13         , 5.61131483870126055e-13         , 4.72106453123613484e-13         , 4.03740223811352759e-13         , 3.50205438527567342e-13         , 3.07543797585493897e-13         , 2.73007182784596585e-13         , 2.44648895566274375e-13         , 2.21064147863135478e-13         , 2.01221737034780352e-13         , 1.84352664225397795e-13         , 1.69875049210610045e-13         , 1.57342628343706343e-13         , },
+/* x = 26.4        */  {0.172481681438057513            , 0.00326669851201956038          , 0.000185607869936249173         , 0.0000175765027700098688        , 2.3302181054042479e-6           , 3.97196203104421186e-7          , 8.2749144117875768e-8           , 2.03737774395377366e-8          , 5.78794009220215071e-9          , 1.8634764553531074e-9           , 6.70504316797661911e-10         , 2.66612991059818344e-10         , 1.16073372529987317e-10         , 5.48941209935074115e-11         , 2.80059951142463736e-11         , 1.531721843789116e-11           , 8.92820164360102976e-12         , 5.51526381527163626e-12         , 3.59108918071999397e-12         , 2.4516207366315945e-12          , 1.74599401394205678e-12         , 1.29092859430175645e-12         , 9.86462211410680677e-13         , 7.75872627291459148e-13         , 6.25781982769071827e-13         , 5.15882431121078259e-13         , 4.3343331808112507e-13          , 3.70212898973637145e-13         , 3.20776224451864687e-13         , 2.81430303054255676e-13         , 2.49614831206619269e-13         , 2.23518558922579317e-13         , 2.0183606855361571e-13          , 1.8361022089949685e-13          , 1.68128030450278437e-13         , 1.54850555086697437e-13         , 1.43364860201968382e-13         , },
+/* x = 26.5        */  {0.172155936706464366            , 0.00324822522081821787          , 0.000183861804893506311         , 0.0000173454532333719324        , 2.29090885914687524e-6          , 3.89022200632127141e-7          , 8.07403982666841478e-8          , 1.98041901631651924e-8          , 5.60490101185545594e-9          , 1.7977399694793213e-9           , 6.44414350961667603e-10         , 2.55275519831250903e-10         , 1.10721474282642433e-10         , 5.21686422250441319e-11         , 2.6518009829008863e-11          , 1.44513861491044377e-11         , 8.39422927327388197e-12         , 5.16812729960974112e-12         , 3.35444596882300215e-12         , 2.28331474920243876e-12         , 1.62170671849383559e-12         , 1.19605955319859309e-12         , 9.1191965375127693e-13          , 7.15803118492181819e-13         , 5.76300517554919246e-13         , 4.74337853235268257e-13         , 3.97970025967487843e-13         , 3.39501740331226985e-13         , 2.93844841122559599e-13         , 2.57553524627623994e-13         , 2.28242241779396042e-13         , 2.04225615279647795e-13         , 1.8429046460181105e-13          , 1.67548321894262128e-13         , 1.53338083550825229e-13         , 1.41160540118587082e-13         , 1.30633569994299196e-13         , },
+/* x = 26.6        */  {0.171832030612011287            , 0.00322992538739111578          , 0.000182138649612207139         , 0.0000171182940837802291        , 2.25240706358146796e-6          , 3.81046255043340285e-7          , 7.87877067960382462e-8          , 1.92525824139283601e-8          , 5.4283069977709955e-9           , 1.73455667358267823e-9          , 6.19431820875233928e-10         , 2.44459855467508854e-10         , 1.05634826094816958e-10         , 4.95877203921425277e-11         , 2.51139947947256913e-11         , 1.36372541642594657e-11         , 7.89381487939101435e-12         , 4.843833900591391e-12           , 3.1340274250424288e-12          , 2.12697532364902995e-12         , 1.50654342319305818e-12         , 1.10835249703898333e-12         , 8.43143418500654332e-13         , 6.60479818121954368e-13         , 5.30801201941548548e-13         , 4.36190439599518915e-13         , 3.65447084795751731e-13         , 3.11367819280702428e-13         , 2.69197416390924079e-13         , 2.35720398981977442e-13         , 2.08713835178481137e-13         , 1.86609331530937534e-13         , 1.68279330413676543e-13         , 1.52899040760291404e-13         , 1.39855417716128788e-13         , 1.2868602093931229e-13          , 1.19037217636272557e-13         , },
+/* x = 26.7        */  {0.171509945922824607            , 0.00321179674008029042          , 0.000180438019058123085         , 0.0000168949455571819644        , 2.2146931903216334e-6           , 3.73262849734010739e-7          , 7.68893035575953377e-8          , 1.87183222687305673e-8          , 5.25790818225526987e-9          , 1.67381838950959718e-9          , 5.95505848354967197e-10         , 2.34140181964929081e-10         , 1.00799383645435781e-10         , 4.71432114720748377e-11         , 2.37889440303168995e-11         , 1.28715782462938559e-11         , 7.424753316629426e-12           , 4.54081949291522237e-12         , 2.92868134316356928e-12         , 1.98172492827628989e-12         , 1.39981598643590117e-12         , 1.02725387484595065e-12         , 7.79678241409694657e-13         , 6.09521017534420904e-13         , 4.88958601067782757e-13         , 4.01158669011669884e-13         , 3.35617857537396644e-13         , 2.85592657722543799e-13         , 2.4663853272737314e-13          , 2.1575464116782932e-13          , 1.90869387674227465e-13         , 1.70523110880705844e-13         , 1.5366774266640983e-13          , 1.39537542064016023e-13         , 1.27563984853761991e-13         , 1.17318659696842586e-13         , 1.08474275493963301e-13         , },
+/* x = 26.8        */  {0.171189665632284498            , 0.00319383704533561263          , 0.000178759536076701048         , 0.0000166753298150717082        , 2.17774825391493054e-6          , 3.65666641596505491e-7          , 7.50434843638037284e-8          , 1.82008022587270132e-8          , 5.0934652652840417e-9           , 1.61542190015201766e-9          , 5.72588067932980843e-10         , 2.2429204785283648e-10          , 9.6201892517437998e-11          , 4.48274561801378283e-11         , 2.25381652086410262e-11         , 1.21513270404855859e-11         , 6.98499023459870909e-12         , 4.25763089666408664e-12         , 2.73733991982613202e-12         , 1.84675215210829344e-12         , 1.30088940768024418e-12         , 9.52253806610590582e-13         , 7.21105447830094009e-13         , 5.62576184175221534e-13         , 4.50474234620765969e-13         , 3.68984623430133886e-13         , 3.0825660661146403e-13          , 2.61976463989649952e-13         , 2.25989623859484911e-13         , 1.9749527760127395e-13          , 1.74562680931209084e-13         , 1.55833243586593245e-13         , 1.40332698981213028e-13         , 1.27350070022695721e-13         , 1.16358078562654051e-13         , 1.06959808586954726e-13         , 9.88523270356609964e-14         , },
+/* x = 26.9        */  {0.170871172955253268            , 0.00317604410693635812          , 0.00017710283120319468          , 0.0000164593708910552567        , 2.14155379479900017e-6          , 3.58252454944059737e-7          , 7.32486045944994309e-8          , 1.76994383369499048e-8          , 4.93474903073719047e-9          , 1.55926870486885714e-9          , 5.50632494273616384e-10         , 2.14892289575431597e-10         , 9.1829841257382948e-11          , 4.26332496439934863e-11         , 2.1357259104091078e-11          , 1.14736675358906529e-11         , 6.57261139451461165e-12         , 3.99291775894531692e-12         , 2.55901340102903268e-12         , 1.72130660316635827e-12         , 1.20917763821122376e-12         , 8.8288257581665502e-13          , 6.67039966029591667e-13         , 5.19323380736198715e-13         , 4.15074317971695269e-13         , 3.39431988715407695e-13         , 2.83156707003004801e-13         , 2.40336521996935322e-13         , 2.07087511563332872e-13         , 1.80795308018324155e-13         , 1.59660271103289796e-13         , 1.42417768579489654e-13         , 1.28162060088916618e-13         , 1.16232961302145837e-13         , 1.06141409284751615e-13         , 9.75196403889168639e-14         , 9.00872468380848174e-14         , },
+/* x = 27.0        */  {0.170554451324380554            , 0.00315841576523150046          , 0.000175467542478055048         , 0.0000162469946390878967        , 2.10609186285345297e-6          , 3.51015275669486299e-7          , 7.15030769043617177e-8          , 1.72136688931089961e-8          , 4.78153988644108153e-9          , 1.50526478779040457e-9          , 5.29595397022243478e-10         , 2.05918959419455073e-10         , 8.76714173672394e-11            , 4.0553813062304554e-11          , 2.02421004419571088e-11         , 1.08359515555595754e-11         , 6.18583276677421767e-12         , 3.74542504605574259e-12         , 2.39278421843355384e-12         , 1.60469420862041498e-12         , 1.12413972814179816e-12         , 8.18707408097678545e-13         , 6.17127587623353595e-13         , 4.79466900490959787e-13         , 3.82507694565481976e-13         , 3.1228422624388025e-13          , 2.60129013368496472e-13         , 2.20505720222059809e-13         , 1.89783070290263078e-13         , 1.65520485000109484e-13         , 1.46040366638284746e-13         , 1.30165436081412708e-13         , 1.17053586233146616e-13         , 1.06091746085471236e-13         , 9.68262624293979545e-14         , 8.89163572423958438e-14         , 8.21024545865004003e-14         , },
+/* x = 27.1        */  {0.170239484386483585            , 0.00314094989639820879          , 0.000173853315267416206         , 0.0000160381286833286537        , 2.07134500152458624e-6          , 3.43950245628289201e-7          , 6.98053690266269323e-8          , 1.67429538132499749e-8          , 4.63362742676657088e-9          , 1.45332039828469047e-9          , 5.09435182645897372e-10         , 1.97351257704102646e-10         , 8.37154660367689934e-11         , 3.85827672125044913e-11         , 1.91888200504822852e-11         , 1.02357032004152189e-11         , 5.82299135076366013e-12         , 3.51398609914611397e-12         , 2.23780157691204026e-12         , 1.49627288458051813e-12         , 1.04527628223540222e-12         , 7.593295123647617e-13           , 5.71042454431796056e-13         , 4.42735100515671875e-13         , 3.52543943224265152e-13         , 2.8734290067357169e-13          , 2.39000367765142976e-13         , 2.02331208303896141e-13         , 1.73940008399130644e-13         , 1.51548200687620661e-13         , 1.33591805149229005e-13         , 1.18974762225490082e-13         , 1.06914059386060301e-13         , 9.68403294946958056e-14         , 8.83327320048563118e-14         , 8.10754706061564324e-14         , 7.48282363755664173e-14         , },
+/* x = 27.2        */  {0.169926255999000692            , 0.00312364441171804897          , 0.000172259802088516891         , 0.0000158327023695543458        , 2.03729623250096281e-6          , 3.37052657236776138e-7          , 6.81540016686855537e-8          , 1.62867735820747942e-8          , 4.490810016600708e-9            , 1.40334984290751175e-9          , 4.90112282852928795e-10         , 1.89169468968163748e-10         , 7.99514514379479668e-11         , 3.67141076820827639e-11         , 1.8193788223765401e-11          , 9.67060717731249664e-12         , 5.48253666274431221e-12         , 3.29751621005818918e-12         , 2.09327645787940826e-12         , 1.39544854592171496e-12         , 9.7212619940349397e-13          , 7.04381362723280167e-13         , 5.28484752825445506e-13         , 4.08878416061548457e-13         , 3.24971645431911137e-13         , 2.64426150418507978e-13         , 2.19612235807851015e-13         , 1.85673170118001694e-13         , 1.59433755755391204e-13         , 1.38766471225376598e-13         , 1.22213120568022199e-13         , 1.08753167486259972e-13         , 9.76584836073082086e-14         , 8.84002461595261376e-14         , 8.05880229649161682e-14         , 7.39291459776177194e-14         , 6.82011272245229119e-14         , },
+/* x = 27.3        */  {0.169614750226516342            , 0.00310649725687040207          , 0.000170686662439905073         , 0.0000156306467180794171        , 2.00392904091880451e-6          , 3.30317948276191337e-7          , 6.65475464954013025e-8          , 1.58446284258429184e-8          , 4.35289439557601075e-9          , 1.35527128819777645e-9          , 4.7158904920447187e-10          , 1.81354901906599282e-10         , 7.6369420414985256e-11          , 3.49421817066125073e-11         , 1.72535992103470549e-11         , 9.13849794700505668e-12         , 5.16302284182359448e-12         , 3.09500667741007544e-12         , 1.95847700578322604e-12         , 1.30167142894488764e-12         , 9.04263672806998519e-13         , 6.5352420130949525e-13          , 4.89178598218311303e-13         , 3.7766754077354414e-13          , 2.99596798951796263e-13         , 2.43367288554020481e-13         , 2.0181946012209791e-13          , 1.70403703166349645e-13         , 1.46150448361918166e-13         , 1.27073010312103239e-13         , 1.11811692579223305e-13         , 9.94161914605150731e-14         , 8.92093565645412269e-14         , 8.06999813755802404e-14         , 7.35258160911241298e-14         , 6.74156065329499329e-14         , 6.21633492719953592e-14         , },
+/* x = 27.4        */  {0.169304951337355985            , 0.00308950641124262955          , 0.000169133562636277423         , 0.0000154318943781295853        , 1.97122736107703019e-6          , 3.23741696894296147e-7          , 6.49846241961937005e-8          , 1.54160374938809357e-8          , 4.21969530150312424e-9          , 1.30900657371734095e-9          , 4.53829653554500919e-10         , 1.73889832824848385e-10         , 7.29599684147570268e-11         , 3.32616665059506913e-11         , 1.63650567485007459e-11         , 8.6373496325491577e-12          , 4.86310132785029379e-12         , 2.90551930613561872e-12         , 1.83272426773574574e-12         , 1.21443270188676648e-12         , 8.4129542939335956e-13          , 6.06445743837590383e-13         , 4.52870093835558349e-13         , 3.48891758754969648e-13         , 2.76241365303937673e-13         , 2.24013522939145201e-13         , 1.85489120931909057e-13         , 1.56405795010280858e-13         , 1.33986001509811282e-13         , 1.1637438400057398e-13          , 1.02302971043906493e-13         , 9.08867772053012248e-14         , 8.14960058596019744e-14         , 7.36743528840572877e-14         , 6.70856897883950604e-14         , 6.1478590375391792e-14          , 5.66623006172450413e-14         , },
+/* x = 27.5        */  {0.168996843800249066            , 0.00307266988725652862          , 0.0001676001756478108           , 0.0000152363795836193118        , 1.93917556264260599e-6          , 3.17319616796210925e-7          , 6.34639026321175841e-8          , 1.50005380768304645e-8          , 4.09103511201098043e-9          , 1.26448103476970224e-9          , 4.36799993977659966e-10         , 1.6675745239414209e-10          , 6.97142075129495219e-11         , 3.16675490176489762e-11         , 1.55251605749723273e-11         , 8.16526663311187522e-12         , 4.58151406860770502e-12         , 2.72818131656381655e-12         , 1.7153882586670768e-12          , 1.13326134032068157e-12         , 7.82858189444767742e-13         , 5.62858071167111311e-13         , 4.19325549220753291e-13         , 3.22357415670718959e-13         , 2.54741939699626104e-13         , 2.06224785313405887e-13         , 1.70499494507988089e-13         , 1.43572388288709334e-13         , 1.22845263687902873e-13         , 1.06585239584838335e-13         , 9.36097687720201164e-14         , 8.30946189463431229e-14         , 7.44539843740956617e-14         , 6.7263947841306594e-14          , 6.121259367860339e-14           , 5.60668565596232466e-14         , 5.16500902307071848e-14         , },
+/* x = 27.6        */  {0.168690412281058598            , 0.00305598572971063569          , 0.000166086180943847822         , 0.0000150440381102849969        , 1.9077584373276756e-6           , 3.11047552616699194e-7          , 6.19840950593551856e-8          , 1.45976848598610964e-8          , 3.96674350345347021e-9          , 1.2216233342649294e-9           , 4.20467605865013912e-10         , 1.59941815505079737e-10         , 6.6623736400941001e-11          , 3.0155106933670912e-11          , 1.47310938392069554e-11         , 7.72047489224838812e-12         , 4.31708721693495196e-12         , 2.56218063177468716e-12         , 1.60588432658013346e-12         , 1.05772124635098287e-12         , 7.28616328311551602e-13         , 5.22495691592082104e-13         , 3.88329845173348676e-13         , 2.97886517172282733e-13         , 2.34948533010989219e-13         , 1.89872660011735293e-13         , 1.56739101009199573e-13         , 1.31805526605016192e-13         , 1.12641244173645055e-13         , 9.76276020472297927e-14         , 8.56616165923165619e-14         , 7.59755675224751219e-14         , 6.80245193663994407e-14         , 6.14146100348782626e-14         , 5.58563693377927544e-14         , 5.11337354966850816e-14         , 4.70831147712673413e-14         , },
+/* x = 27.7        */  {0.168385641639575727            , 0.00303945201513794911          , 0.000164591264340803266         , 0.0000148548072341276163        , 1.87696118602070263e-6          , 3.04921475466424825e-7          , 6.05439584257091106e-8          , 1.42070492091666082e-8          , 3.84665712619333532e-9          , 1.18036530322921218e-9          , 4.048015778874853e-10           , 1.53427794029762555e-10         , 6.36806122075125088e-11         , 2.87198909530589702e-11         , 1.39802113600044481e-11         , 7.30131377349789218e-12         , 4.06872528140954673e-12         , 2.4067615144073876e-12          , 1.50366979451106131e-12         , 9.87408592212337537e-13         , 6.78259723969952976e-13         , 4.85113759827117382e-13         , 3.59684932928163869e-13         , 2.75315443924577708e-13         , 2.1672345624746179e-13          , 1.74839403750538965e-13         , 1.4410583398793715e-13          , 1.21015574242146207e-13         , 1.0329440785148506e-13          , 8.9430232115322732e-14          , 7.83941752068280164e-14         , 6.94710884344898903e-14         , 6.21540105239547655e-14         , 5.60769728467742e-14            , 5.09713139420235077e-14         , 4.66367197410442771e-14         , 4.29216735246999025e-14         , },
+/* x = 27.8        */  {0.168082516926377776            , 0.00302306685117865555          , 0.000163115117854162589         , 0.0000146686256911202555        , 1.84676940635458727e-6          , 2.98937478645045851e-7          , 5.91422917368483489e-8          , 1.38282184901491434e-8          , 3.73061929542267961e-9          , 1.14064178948649981e-9          , 3.89772472545095907e-10         , 1.47201032314943347e-10         , 6.08773240379052697e-11         , 2.73577081692710031e-11         , 1.32700286660818904e-11         , 6.90622849964408002e-12         , 3.83540569699285084e-12         , 2.26122052634172849e-12         , 1.40824085765821085e-12         , 9.21949370453054458e-13         , 6.31501775386783276e-13         , 4.50486439832628428e-13         , 3.33208456414371379e-13         , 2.54493773425948531e-13         , 1.9994029882833826e-13          , 1.61017048676701457e-13         , 1.32506164502658284e-13         , 1.11120503281958909e-13         , 9.47320313730893213e-14         , 8.19280405054337697e-14         , 7.17486988067737174e-14         , 6.35277678246263137e-14         , 5.67935726040914396e-14         , 5.1206033868740465e-14          , 4.6515782968374774e-14          , 4.25370915225519008e-14         , 3.91296180204534395e-14         , },
+/* x = 27.9        */  {0.167781023379748275            , 0.00300682837596745727          , 0.000161657439554448251         , 0.0000144854336381376678        , 1.81716908069541727e-6          , 2.9309177351432552e-7           , 5.7777934489214862e-8           , 1.34607954157778099e-8          , 3.61847969672537161e-9          , 1.10239051406702338e-9          , 3.75352251037312387e-10         , 1.41247905240002638e-10         , 5.82067681205850846e-11         , 2.60646065165450568e-11         , 1.25982117662240786e-11         , 6.53376311521658305e-12         , 3.61617378459321019e-12         , 2.12490278674127223e-12         , 1.31912971585182046e-12         , 8.60997134320867584e-13         , 5.88077577905033866e-13         , 4.18405399689846639e-13         , 3.08732487370079919e-13         , 2.35283199645889791e-13         , 1.84482992687166203e-13         , 1.48306581545845841e-13         , 1.218544133947167e-13           , 1.02045242267151238e-13         , 8.68876152917629401e-14         , 7.50615534089165153e-14         , 6.56715458729951322e-14         , 5.80968621297447498e-14         , 5.18986186874726381e-14         , 4.67607674421644346e-14         , 4.24518284446607722e-14         , 3.87995837144918863e-14         , 3.56740331956268441e-14         , },
+/* x = 28.0        */  {0.167481146422657556            , 0.00299073475753510921          , 0.000160217933427033707         , 0.0000143051726150665808        , 1.78814656453617955e-6          , 2.87380685524742952e-7          , 5.6449765166645746e-8           , 1.31043974236854286e-8          , 3.51009410562983456e-9          , 1.06555193492315167e-9          , 3.61514202205878352e-10         , 1.35555478684156275e-10         , 5.56622244593732195e-11         , 2.48368602048863655e-11         , 1.1962567598593533e-11          , 6.18255393479497209e-12         , 3.41013807085625204e-12         , 1.99719850584932673e-12         , 1.2359019231077217e-12          , 8.04230913290922906e-13         , 5.47742242993785233e-13         , 3.8867842771519954e-13          , 2.86102363947492141e-13         , 2.17556542266841537e-13         , 1.70244954925848784e-13         , 1.36617192512010181e-13         , 1.12072085846758909e-13         , 9.37210810568607482e-14         , 7.97003472755950152e-14         , 6.87764247145517065e-14         , 6.01137329904380426e-14         , 5.31338875307625053e-14         , 4.74284804240003131e-14         , 4.27037717297500009e-14         , 3.87448695571291028e-14         , 3.53920712276408535e-14         , 3.25249472583657195e-14         , },
+/* x = 28.1        */  {0.167182871659802484            , 0.00297478419322378725          , 0.000158796309235688985         , 0.000014127785508057013         , 1.75968857528039675e-6          , 2.81800650389373251e-7          , 5.51566997979059032e-8          , 1.27586560806402622e-8          , 3.40532412044145784e-9          , 1.03006911755713132e-9          , 3.4823287531657459e-10          , 1.30111472257189737e-10         , 5.32373348953978795e-11         , 2.36709560781306736e-11         , 1.13610351123758906e-11         , 5.85132344243590203e-12         , 3.21646594166387597e-12         , 1.8775397736815796e-12          , 1.15815393745288527e-12         , 7.51353289888854474e-13         , 5.10269350741320123e-13         , 3.61128159900195577e-13         , 2.65175624229631249e-13         , 2.01196838012994175e-13         , 1.57128302359565705e-13         , 1.25865587573231066e-13         , 1.03087262851096989e-13         , 8.60851269947510107e-14         , 7.311461193430911e-14           , 6.30229908585851542e-14         , 5.50305278763948487e-14         , 4.85982456664938107e-14         , 4.3346061974839439e-14          , 3.90009472306304258e-14         , 3.53633927126175253e-14         , 3.22852900919479652e-14         , 2.96550676605902478e-14         , },
+/* x = 28.2        */  {0.166886184874703995            , 0.00295897490911592006          , 0.000157392282389745691         , 0.0000139532165138763343        , 1.73178218140126134e-6          , 2.76348210399080699e-7          , 5.38976905724589897e-8          , 1.24232165130986915e-8          , 3.30403690768226435e-9          , 9.95887612187904791e-10         , 3.35484016460452611e-10         , 1.24904224157248955e-10         , 5.0926082489646493e-11          , 2.25635808340513929e-11         , 1.07916769382752455e-11         , 5.5388746100942971e-12          , 3.03437960482729516e-12         , 1.76539758437299605e-12         , 1.08551085553884927e-12         , 7.0208862507577411e-13          , 4.75449524420060766e-13         , 3.35590909584374616e-13         , 2.45821026799013217e-13         , 1.86096507186025384e-13         , 1.45043131863110461e-13         , 1.15975359231004424e-13         , 9.48340446829337333e-14         , 7.90798079349596594e-14         , 6.70795431872166347e-14         , 5.77558645568720764e-14         , 5.03810781594271177e-14         , 4.4452882394703743e-14          , 3.96175246489817862e-14         , 3.56212039276605147e-14         , 3.22786784129342449e-14         , 2.94525817345514154e-14         , 2.70395408242799189e-14         , },
+/* x = 28.3        */  {0.166591072026861071            , 0.0029433051594761279           , 0.00015600557381477301          , 0.0000137814111053292171        , 1.70441479196242335e-6          , 2.71020010873329535e-7          , 5.26717245119305028e-8          , 1.20977368626102139e-8          , 3.20610495950167452e-9          , 9.62955337105477674e-10         , 3.2324450836829762e-10          , 1.19922658027841335e-10         , 4.87227721427901096e-11         , 2.15116090496700044e-11         , 1.02526716074674846e-11         , 5.24408560526725371e-12         , 2.86315233930838115e-12         , 1.66027907842307572e-12         , 1.01762431778051516e-12         , 6.56181420484957047e-13         , 4.43089117323018247e-13         , 3.11915591021435619e-13         , 2.27917651157089037e-13         , 1.72156589110221106e-13         , 1.33906860949644874e-13         , 1.06876410390496586e-13         , 8.72520418990253316e-14         , 7.26524180603860509e-14         , 6.15486154574335814e-14         , 5.29335640042972093e-14         , 4.61280727530573014e-14         , 4.06639766697173726e-14         , 3.62119995010901481e-14         , 3.25361945077803452e-14         , 2.94645525369397709e-14         , 2.6869660187603394e-14          , 2.46557334786104042e-14         , },
+/* x = 28.4        */  {0.166297519248959897            , 0.00292777322620592273          , 0.000154635909826659896         , 0.000013612315997707982         , 1.67757414648714392e-6          , 2.65812796741165413e-7          , 5.14778221948366151e-8          , 1.17818877649080316e-8          , 3.11140586245634992e-9          , 9.31222467881305446e-10         , 3.11492313444454299e-10         , 1.15156251694256003e-10         , 4.66220123744381826e-11         , 2.05120919588231561e-11         , 9.74230628148637177e-12         , 4.96590486026946272e-12         , 2.70210501000975433e-12         , 1.56172498645286257e-12         , 9.54170570881177666e-13         , 6.13394806739511884e-13         , 4.13009002870451846e-13         , 2.89962729188190618e-13         , 2.11354071396001724e-13         , 1.59286040722196813e-13         , 1.23643623488449852e-13         , 9.85044269565976079e-14         , 8.02859097709010455e-14         , 6.67547027827193097e-14         , 5.64792703037018207e-14         , 4.85181744280229782e-14         , 4.2237432948134808e-14          , 3.72006568668472653e-14         , 3.31013254016211108e-14         , 2.97200713258111547e-14         , 2.6897159842078323e-14          , 2.45144001638046772e-14         , 2.24830336589935469e-14         , },
+/* x = 28.5        */  {0.166005512844136918            , 0.002912377418310834            , 0.000153283022009002148         , 0.0000134458791162391434        , 1.65124830516306032e-6          , 2.60723409247157491e-7          , 5.03150365322660801e-8          , 1.14753518515770737e-8          , 3.01982207708930295e-9          , 9.0064133212197039e-10          , 3.00206419837747359e-10         , 1.10595007667137835e-10         , 4.46186981890935481e-11         , 1.95622469326579079e-11         , 9.2589699581741326e-12          , 4.70334647756512089e-12         , 2.55060282874878585e-12         , 1.4693072593486312e-12          , 8.94848675637967327e-13         , 5.73509147943277836e-13         , 3.85043459718418968e-13         , 2.69603548817846022e-13         , 1.96027597075954816e-13         , 1.47401093027719513e-13         , 1.14183715902892328e-13         , 9.08003949719959582e-14         , 7.38849224163831478e-14         , 6.13424793373746034e-14         , 5.18325753985552411e-14         , 4.44750391557841105e-14         , 3.86780306026896154e-14         , 3.40347421215107386e-14         , 3.02598103125828436e-14         , 2.71492649908759718e-14         , 2.45547576938725556e-14         , 2.23666441234956473e-14         , 2.05026695952673073e-14         , },
+/* x = 28.6        */  {0.16571503928329457             , 0.00289711607137963462          , 0.00015194664709369639          , 0.0000132820495644932103        , 1.62542563937031728e-6          , 2.55748782777316993e-7          , 4.91824515923105488e-8          , 1.11778232732467413e-8          , 2.93124072776883899e-9          , 8.71166309471096731e-10         , 2.89366790378099791e-10         , 1.06229425307981919e-10         , 4.27079949608401097e-11         , 1.86594476170886868e-11         , 8.80114712129134069e-12         , 4.45548594744613677e-12         , 2.40805234348427244e-12         , 1.38262687082956528e-12         , 8.39378848872463784e-13         , 5.36320753229917895e-13         , 3.59039144273373103e-13         , 2.5071913621815456e-13          , 1.81843575766622197e-13         , 1.36424660593848644e-13         , 1.05463089587080941e-13         , 8.37101585006487713e-14         , 6.80025832168397014e-14         , 5.63752899818644713e-14         , 4.75729130327393271e-14         , 4.07724776107742173e-14         , 3.54214310403115805e-14         , 3.11405064672928321e-14         , 2.7664013704713147e-14          , 2.48022826446940235e-14         , 2.24175282109203349e-14         , 2.04080266262875297e-14         , 1.86975448765132551e-14         , },
+/* x = 28.7        */  {0.165426085202468511            , 0.00288198754707535107          , 0.000150626526844646242         , 0.0000131207775937259976        , 1.60009482252130723e-6          , 2.50885941800223299e-7          , 4.80791814711412634e-8          , 1.08890072433081648e-8          , 2.84555340227656286e-9          , 8.42753736581076736e-10         , 2.78954314217642752e-10         , 1.02050474557887348e-10         , 4.0885323273234233e-11          , 1.78012146843744216e-11         , 8.36741180366455326e-12         , 4.22145615607156828e-12         , 2.27389863920652598e-12         , 1.30131177954793261e-12         , 7.87500929205812122e-13         , 5.01640686983467299e-13         , 3.34854143633993017e-13         , 2.3319966796567401e-13          , 1.68714752173518413e-13         , 1.26285799652339775e-13         , 9.74228856427864791e-14         , 7.71840147862806962e-14         , 6.25962684030712542e-14         , 5.18160849755879958e-14         , 4.36676955730542553e-14         , 3.73815278728234676e-14         , 3.24416584796613079e-14         , 2.84944637542737677e-14         , 2.52925482361536907e-14         , 2.26595241739715049e-14         , 2.04674071758199532e-14         , 1.86218144140688373e-14         , 1.70520884256944587e-14         , },
+/* x = 28.8        */  {0.165138637400245154            , 0.00286699023263775122          , 0.000149322407944489056         , 0.0000129620145731208552        , 1.57524482120072851e-6          , 2.46131997918793973e-7          , 4.70043692087276033e-8          , 1.06086196012054703e-8          , 2.76265596066073438e-9          , 8.1536181679181823e-10          , 2.68950761024666528e-10         , 9.80495711370528255e-11         , 3.91463446550079972e-11         , 1.69852071588792636e-11         , 7.95642203586780857e-12         , 4.0004436634793768e-12          , 2.147622735140735e-12           , 1.22501503881753317e-12         , 7.38972957202418681e-13         , 4.69293670012762959e-13         , 3.12357102547628657e-13         , 2.1694370105379219e-13          , 1.56560679193727768e-13         , 1.16919210763253555e-13         , 9.00090083701141032e-14         , 7.11763435135633037e-14         , 5.76269009624545786e-14         , 4.76309327648567345e-14         , 4.00871055262634659e-14         , 3.42757116535186249e-14         , 2.97149820104731616e-14         , 2.60751715084117725e-14         , 2.31258989804791129e-14         , 2.07031147565416247e-14         , 1.86879282106587516e-14         , 1.69927608121720329e-14         , 1.55521179498241246e-14         , },
+/* x = 28.9        */  {0.164852682835228414            , 0.00285212254039701202          , 0.000148034041884254629         , 0.000012805712960902329         , 1.55086488659511718e-6          , 2.41484147028330877e-7          , 4.59571857472856362e-8          , 1.03363863943976365e-8          , 2.68244835289679358e-9          , 7.88950534268436194e-10         , 2.59338737587723335e-10         , 9.42185531282406771e-11         , 3.74869481560494234e-11         , 1.62092142797812574e-11         , 7.5669146543981842e-12          , 3.79168523265862349e-12         , 2.0287391640577582e-12          , 1.15341304297624769e-12         , 6.93569861146881751e-13         , 4.39117064577088594e-13         , 2.91426418488365937e-13         , 2.01857519518064003e-13         , 1.45307176633180762e-13         , 1.08264782328965922e-13         , 8.31717342488320808e-14         , 6.56452672718662269e-14         , 5.30586522661985039e-14         , 4.37887550212736447e-14         , 3.68038580673208722e-14         , 3.14308197224634199e-14         , 2.72197203070317946e-14         , 2.38630520562289866e-14         , 2.11462586446976144e-14         , 1.8916752284194479e-14          , 1.7064080850555814e-14          , 1.55069731627932028e-14         , 1.41847156518929646e-14         , },
+/* x = 29.0        */  {0.164568208623554517            , 0.00283738290729827846          , 0.000146761184855870152         , 0.0000126518262762928309        , 1.52694454620143538e-6          , 2.3693966657666127e-7           , 4.49368289306329178e-8          , 1.0072043478132124e-8           , 2.60483444492098487e-9          , 7.63481572363655261e-10         , 2.50101646695598487e-10         , 9.05496588628074232e-11         , 3.59032377117212593e-11         , 1.54711478660050654e-11         , 7.19770044512757021e-12         , 3.59446459213727317e-12         , 1.91679372054340993e-12         , 1.08620390022749716e-12         , 6.51082240400426007e-13         , 4.10959936725483965e-13         , 2.71949499440623833e-13         , 1.87854532971170429e-13         , 1.34885833672804072e-13         , 1.00267171561008464e-13         , 7.68653534246500954e-14         , 6.05523405701752135e-14         , 4.88586690403662689e-14         , 4.02610843862365511e-14         , 3.37929840776778969e-14         , 2.88247159946542729e-14         , 2.49360634301191347e-14         , 2.18402293879237056e-14         , 1.93373773569224338e-14         , 1.72855683355563088e-14         , 1.55821812714582827e-14         , 1.41517921205677451e-14         , 1.29381151003899588e-14         , },
+/* x = 29.1        */  {0.164285202036453842            , 0.00282276979443683302          , 0.000145503597647428499         , 0.000012500309072284916         , 1.50347359580470836e-6          , 2.32495912922370954e-7          , 4.39425225427095331e-8          , 9.81533613221371578e-9          , 2.52972185262577431e-9          , 7.38918235983719782e-10         , 2.41223648166752645e-10         , 8.70355060329232579e-11         , 3.43915202469340722e-11         , 1.47690351509910631e-11         , 6.84765959950320918e-12         , 3.40810941580620509e-12         , 1.81136136605361559e-12         , 1.02310592257899286e-12         , 6.11315238910529549e-13         , 3.84682189931574966e-13         , 2.53822079409956932e-13         , 1.74854722854575669e-13         , 1.25233551496130988e-13         , 9.28754197878688012e-14         , 7.10478409683488557e-14         , 5.58622649789890666e-14         , 4.49968235095620643e-14         , 3.70218429610800542e-14         , 3.10316319104376758e-14         , 2.64371586464435956e-14         , 2.28459102142309603e-14         , 1.99903803676315864e-14         , 1.76844257300491355e-14         , 1.57960014910870027e-14         , 1.42297545400498097e-14         , 1.2915681745558533e-14          , 1.18015982519368658e-14         , },
+/* x = 29.2        */  {0.16400365049785871             , 0.00280828168660360363          , 0.000144261045541139609         , 0.0000123511169092027451        , 1.48044209171509395e-6          , 2.28150318787296515e-7          , 4.29735153836050096e-8          , 9.56601869399205513e-9          , 2.4570217834272555e-9           , 7.15225377748873938e-10         , 2.32689621909238001e-10         , 8.36690719583029534e-11         , 3.29482944745181914e-11         , 1.41010120570864595e-11         , 6.51573746253816535e-12         , 3.23198850487159666e-12         , 1.71204427948482785e-12         , 9.63856224210509744e-13         , 5.7408750202503923e-13          , 3.60153764483234614e-13         , 2.36947587084599314e-13         , 1.6278413255758599e-13          , 1.16292122788880951e-13         , 8.60425992533235062e-14         , 6.56805554075454582e-14         , 5.15426281826057777e-14         , 4.1445484729577819e-14          , 3.40471397527752461e-14         , 2.84988862550871318e-14         , 2.42496367711372685e-14         , 2.09327198697183015e-14         , 1.82985990230696294e-14         , 1.61738700230793941e-14         , 1.44356818903186744e-14         , 1.29954273552363211e-14         , 1.17881294247560979e-14         , 1.07654017132214541e-14         , },
+/* x = 29.3        */  {0.163723541582056126            , 0.00279391709184074551          , 0.000143033298213887323         , 0.0000122042063290272565        , 1.45784034325514351e-6          , 2.23900390799605899e-7          , 4.20290803815064675e-8          , 9.32385420682932061e-9          , 2.38664888503504982e-9          , 6.92369327751023157e-10         , 2.24485132899036691e-10         , 8.04436749401686111e-11         , 3.15702403453581597e-11         , 1.34653168813662815e-11         , 6.2009405530887321e-12          , 3.06550915791268486e-12         , 1.61847004282258247e-12         , 9.08209420260329747e-13         , 5.39230210293884692e-13         , 3.37253897525321423e-13         , 2.21236563440232718e-13         , 1.51574397869618486e-13         , 1.08007845093919738e-13         , 7.97254887941380551e-14         , 6.07279622429110988e-14         , 4.75636649148932703e-14         , 3.8179309296410556e-14          , 3.1315085440611967e-14          , 2.61756026167877131e-14         , 2.22452212161604342e-14         , 1.91813765505728228e-14         , 1.67512727593010919e-14         , 1.47933583267247541e-14         , 1.31933260298158842e-14         , 1.18688303431359393e-14         , 1.07595547403836452e-14         , 9.82063141087611955e-15         , },
+/* x = 29.4        */  {0.163444863011384467            , 0.00277967454100704014          , 0.000141820129640316555         , 0.0000120595348304604722        , 1.43565890548837242e-6          , 2.19743707123951435e-7          , 4.1108513739055415e-8           , 9.08861408334545935e-9          , 2.31852110107439635e-9          , 6.70317826722063827e-10         , 2.16596397971289589e-10         , 7.73529566392805521e-11         , 3.02542091104773436e-11         , 1.28602843665739573e-11         , 5.90233283826721005e-12         , 2.90811471602660194e-12         , 1.53028995220135651e-12         , 8.55936418626868496e-13         , 5.06586184431215987e-13         , 3.15870439057314527e-13         , 2.06606124419223967e-13         , 1.41162314520464036e-13         , 1.00331165255017963e-13         , 7.38842760049474662e-14         , 5.61573803545515917e-14         , 4.38980379249682087e-14         , 3.51750497753143082e-14         , 2.88056229712034186e-14         , 2.40442560549539235e-14         , 2.04084283630523184e-14         , 1.757806574889778e-14           , 1.53359694438412799e-14         , 1.35316167955289679e-14         , 1.20586408898722039e-14         , 1.08405090516418426e-14         , 9.82122648262567714e-15         , 8.9591849129511183e-15          , },
+/* x = 29.5        */  {0.16316760265397315             , 0.00276555258735286219          , 0.000140621317998378058         , 0.0000119170608447052402        , 1.41388857218060273e-6          , 2.15677915175327191e-7          , 4.02111341126691319e-8          , 8.86007778277251517e-9          , 2.25255953322826116e-9          , 6.49039962436612212e-10         , 2.09010254325005302e-10         , 7.43908654187252908e-11         , 2.89972139578027542e-11         , 1.22843401326228757e-11         , 5.61903224509319416e-12         , 2.75928227097260071e-12         , 1.44717744542087175e-12         , 8.06823297941857271e-13         , 4.76009056061793486e-13         , 2.95899219558765597e-13         , 1.92979465126655415e-13         , 1.31489439828367512e-13         , 9.32163524118748178e-14         , 6.84822836985623393e-14         , 5.19387493815803587e-14         , 4.05206372775974372e-14         , 3.24113793362420426e-14         , 2.65003726186718555e-14         , 2.20888029441993774e-14         , 1.87250957203419615e-14         , 1.61101614776438466e-14         , 1.40413344036794213e-14         , 1.23783550358070298e-14         , 1.10222365594621721e-14         , 9.90184286719960591e-15         , 8.96518707656922076e-15         , 8.17368071385128628e-15         , },
+/* x = 29.6        */  {0.162891748521524333            , 0.00275154980610447186          , 0.00013943664557726041          , 0.0000117767437119375459        , 1.39252036898586978e-6          , 2.11700729413403673e-7          , 3.93362818234478013e-8          , 8.63803250178194014e-9          , 2.18868830958443481e-9          , 6.28506109182514028e-10         , 2.01714129647587926e-10         , 7.15516405957565057e-11         , 2.77964211887134851e-11         , 1.17359954457310105e-11         , 5.35020739365162115e-12         , 2.61852052509013012e-12         , 1.36882663762217439e-12         , 7.60670265388014271e-13         , 4.47362499290864688e-13         , 2.77243465256768301e-13         , 1.80285402271159692e-13         , 1.22501725718855361e-13         , 8.66211972187410561e-14         , 6.34857186534127961e-14         , 4.80444163200860037e-14         , 3.7408396437886895e-14          , 2.98687312123466494e-14         , 2.43824902650855139e-14         , 2.02945546286890754e-14         , 1.7182268298546745e-14          , 1.47661232948133101e-14         , 1.2856996459836181e-14          , 1.13241798379792129e-14         , 1.00755466031645075e-14         , 9.04497114612689194e-15         , 8.1841837588082018e-15          , 7.45739385665662719e-15         , },
+/* x = 29.7        */  {0.162617288767135735            , 0.00273766479405739765          , 0.000138265898687641048         , 0.0000116385436584493357        , 1.37154554684900088e-6          , 2.07809929214247644e-7          , 3.84833180983506105e-8          , 8.42227287817946316e-9          , 2.12683445888878995e-9          , 6.08687870141609502e-10         , 1.94696013770921816e-10         , 6.88297975503625169e-11         , 2.66491419016921422e-11         , 1.12138423037791062e-11         , 5.09507453710793306e-12         , 2.48536779256406422e-12         , 1.29495095743537621e-12         , 7.17290688510821054e-13         , 4.20519518519429171e-13         , 2.59813257363539312e-13         , 1.68457951840966145e-13         , 1.14149180600251983e-13         , 8.05067351512826786e-14         , 5.88634408077958986e-14         , 4.44489397330263143e-14         , 3.45401237221152397e-14         , 2.75291517172261459e-14         , 2.24365377641134944e-14         , 1.86480619394208423e-14         , 1.57680948269754857e-14         , 1.35354023058402272e-14         , 1.17734822025523518e-14         , 1.03605165140766667e-14         , 9.21075548131884131e-15         , 8.26272591622421223e-15         , 7.47160589890280273e-15         , 6.8041973231894753e-15          , },
+/* x = 29.8        */  {0.162344211683163666            , 0.00272389616917868073          , 0.000137108867574190401         , 0.0000115024217744405661        , 1.35095557561727681e-6          , 2.04003356816463528e-7          , 3.76516243403831169e-8          , 8.21260070689119933e-9          , 2.06692779042119044e-9          , 5.89558022531798622e-10         , 1.87944431775824399e-10         , 6.62201136413971935e-11         , 2.55528241524680505e-11         , 1.0716548817897007e-11          , 4.85289469493589842e-12         , 2.35939013235069481e-12         , 1.22528187647368952e-12         , 6.76510195613961591e-13         , 3.95361788279345843e-13         , 2.4352503190094216e-13          , 1.57435939246595651e-13         , 1.06385557786422453e-13         , 7.48369919425590944e-14         , 5.45867512143542917e-14         , 4.11289101012585276e-14         , 3.18963478174836307e-14         , 2.53761656653023776e-14         , 2.06483643493520562e-14         , 1.71370096338040206e-14         , 1.44717329544829818e-14         , 1.24083553569606118e-14         , 1.07821377807878164e-14         , 9.47953716694612364e-15         , 8.42073239617205661e-15         , 7.54857056214571024e-15         , 6.82142791524178766e-15         , 6.20850867353227284e-15         , },
+/* x = 29.9        */  {0.162072505699125406            , 0.00271024257021775901          , 0.000135965346330265206         , 0.0000113683399924399381        , 1.33074213785387691e-6          , 2.00278915338915795e-7          , 3.68406014265944158e-8          , 8.00882466769230319e-9          , 2.00890077922503132e-9          , 5.71090465369529393e-10         , 1.81448418466444543e-10         , 6.37176148840745922e-11         , 2.4505045561973927e-11          , 1.02428548715998894e-11         , 4.62297096664752885e-12         , 2.24017960376427338e-12         , 1.15956772556885763e-12         , 6.38165839734072124e-13         , 3.71779041187587554e-13         , 2.28301116994413894e-13         , 1.47162639383066108e-13         , 9.91680683449986919e-14         , 6.95787493505042663e-14         , 5.06291972089950393e-14         , 3.80627849690297361e-14         , 2.9459176184074723e-14          , 2.33946531390137499e-14         , 1.90049981386779283e-14         , 1.57501198988711944e-14         , 1.3283262651519556e-14          , 1.13761667017535982e-14         , 9.87505754401640235e-15         , 8.67409527756262068e-15         , 7.69897099275554704e-15         , 6.89654396053232476e-15         , 6.22815728431340764e-15         , 5.66524146340239652e-15         , },
+/* x = 30.0        */  {0.16180215937964007             , 0.00269670265632577489          , 0.000134835132814729141         , 0.0000112362610663344912        , 1.31089712284608682e-6          , 1.96634566867309194e-7          , 3.60496690327361908e-8          , 7.81076006415567987e-9          , 1.95268845643509183e-9          , 5.53260169719447877e-10         , 1.75197494140663688e-10         , 6.13175633454041507e-11         , 2.35035063452434511e-11         , 9.79156804002329792e-12         , 4.40464601418234403e-12         , 2.12735263635999292e-12         , 1.09757259162452298e-12         , 6.0210532156534761e-13          , 3.49668500418312743e-13         , 2.14069304763152829e-13         , 1.3758544426790931e-13          , 9.24571164215979994e-14         , 6.47013296073385371e-14         , 4.69663933773638737e-14         , 3.52307376507950053e-14         , 2.72121652533425586e-14         , 2.15707366372011457e-14         , 1.74945468680543163e-14         , 1.44770641342430941e-14         , 1.21936070993909103e-14         , 1.04307764862610327e-14         , 9.04501893289202084e-15         , 7.93766605139659278e-15         , 7.03953439420627974e-15         , 6.30120957872364994e-15         , 5.68678718739216833e-15         , 5.16976101027403676e-15         , },
+/* x = 30.1        */  {0.161533161422407123            , 0.00268327510668309721          , 0.00013371802857084087          , 0.0000111061485509889215        , 1.29141262080151456e-6          , 1.93068330607015896e-7          , 3.52782649834867242e-8          , 7.61822857332314542e-9          , 1.89822830446134752e-9          , 5.36043131305130349e-10         , 1.69181641586767705e-10         , 5.90154452167451995e-11         , 2.25460227360644318e-11         , 9.36155975294933558e-12         , 4.19729970191978849e-12         , 2.02054850633908759e-12         , 1.03907528940948375e-12         , 5.68186267050700507e-13         , 3.28934353367337615e-13         , 2.00762455158317249e-13         , 1.28655556098232216e-13         , 8.62160552486167358e-14         , 6.01763970370386428e-14         , 4.35758570200323187e-14         , 3.26145183701117215e-14         , 2.5140201429811977e-14          , 1.98916777219205562e-14         , 1.61061070631394707e-14         , 1.33083822992006237e-14         , 1.11944604151767809e-14         , 9.56481545572486265e-15         , 8.28542306874457276e-15         , 7.26429201445373326e-15         , 6.43700509765281263e-15         , 5.75760909438447017e-15         , 5.19275337959692857e-15         , 4.71784411778386357e-15         , },
+/* x = 30.2        */  {0.161265500656221755            , 0.00266995862013485333          , 0.000132613838747151428         , 0.0000109779667824361491        , 1.27228091722581633e-6          , 1.89578281099645861e-7          , 3.45258446271915143e-8          , 7.43105800562504442e-9          , 1.84546015679865337e-9          , 5.1941632536159113e-10          , 1.63391284240616366e-10         , 5.68069595250983559e-11         , 2.16305207837791259e-11         , 8.95176168638203912e-12         , 4.00034688402834558e-12         , 1.91942791224865958e-12         , 9.83868403024924892e-13         , 5.36275555675820167e-13         , 3.09487263437925869e-13         , 1.88318129307951553e-13         , 1.20327703741839854e-13         , 8.04109621922591168e-14         , 5.59777754513933552e-14         , 4.04368569256575765e-14         , 3.01973267964060055e-14         , 2.32293919871011739e-14         , 1.83457823566088825e-14         , 1.48296809254517783e-14         , 1.22354091704778881e-14         , 1.02782216177856996e-14         , 8.77154533851610778e-15         , 7.5902405405049538e-15          , 6.64853339484815768e-15         , 5.88643929904216696e-15         , 5.26122013299406988e-15         , 4.7418949035365473e-15          , 4.30564240311442869e-15         , },
+/* x = 30.3        */  {0.160999166039026295            , 0.00265675191483427347          , 0.000131522372020354743         , 0.0000108516808586212993        , 1.25349448747567854e-6          , 1.86162546500959255e-7          , 3.3791880234118413e-8           , 7.24908207459675566e-9          , 1.79432610224381781e-9          , 5.03357663616648958e-10         , 1.57817265441259972e-10         , 5.46880074470376824e-11         , 2.07550305000972084e-11         , 8.56116236842333903e-12         , 3.81323532956195195e-12         , 1.82367164325611784e-12         , 9.31757392161118606e-13         , 5.0624869579770707e-13          , 2.91243917111285181e-13         , 1.76678250117849607e-13         , 1.12559880835317972e-13         , 7.50104313246232895e-14         , 5.20812800492233651e-14         , 3.75302743603826057e-14         , 2.79636950323781674e-14         , 2.14669650265786251e-14         , 1.69223141976839002e-14         , 1.36561002723000196e-14         , 1.12502069142019069e-14         , 9.4379342926343757e-15          , 8.04480441071885548e-15         , 6.9539619319799449e-15          , 6.08542286697806939e-15         , 5.38332525375757403e-15         , 4.80791775620283723e-15         , 4.3304183036655156e-15          , 3.92964890403277366e-15         , },
+/* x = 30.4        */  {0.16073414665599692             , 0.00264365372789365451          , 0.000130443440520036801         , 0.0000107272566206818747        , 1.23504599148103783e-6          , 1.82819306917817729e-7          , 3.30758604172692833e-8          , 7.0721401759618107e-9           , 1.74477039331257513e-9          , 4.87845953294262905e-10         , 1.52450828726453991e-10         , 5.26546821913312702e-11         , 1.99176803351649119e-11         , 8.18880398612714189e-12         , 3.63544377636250428e-12         , 1.73297933374868508e-12         , 8.82559758612116226e-13         , 4.77989243611961586e-13         , 2.74126603681350074e-13         , 1.65788788052917463e-13         , 1.0531310380709227e-13          , 6.99853821299048036e-14         , 4.8464562647916703e-14          , 3.48384752724289575e-14         , 2.58993801844011511e-14         , 1.98411777375507465e-14         , 1.56114151648440306e-14         , 1.25769569267132007e-14         , 1.03455034272476155e-14         , 8.66723145987735313e-15         , 7.37895778849001347e-15         , 6.37155267278486524e-15         , 5.57042427290913642e-15         , 4.92354531490991533e-15         , 4.39393936688146894e-15         , 3.95486502832648588e-15         , 3.58666767135870858e-15         , },
+/* x = 30.5        */  {0.160470431717664887            , 0.00263066281504275623          , 0.000129376859755270686         , 0.0000106046606347474849        , 1.21692826863074659e-6          , 1.79546792801965032e-7          , 3.23772895748321808e-8          , 6.90007717567157416e-9          , 1.69673935865936535e-9          , 4.72860858038637452e-10         , 1.47283599112816152e-10         , 5.07032594183084075e-11         , 1.91166919634224106e-11         , 7.8337793808726875e-12          , 3.46648010543010222e-12         , 1.64706829844502684e-12         , 8.36104268843762372e-13         , 4.51388262615046411e-13         , 2.58062825232791757e-13         , 1.55599470185032259e-13         , 9.85511882768841124e-14         , 6.53088830659987112e-14         , 4.5106969172321596e-14          , 3.23451927939040098e-14         , 2.39912657211010039e-14         , 1.83412322624200322e-14         , 1.44040326730671216e-14         , 1.15845390056759053e-14         , 9.51463595058766499e-15         , 7.96028519437983082e-15         , 6.76885203511611137e-15         , 5.83841183304517326e-15         , 5.09939496976260149e-15         , 4.50334132308593233e-15         , 4.01585272656443019e-15         , 3.61208173453472883e-15         , 3.27378607910882823e-15         , },
+/* x = 30.6        */  {0.160208010558071566            , 0.00261777795029444788          , 0.000128322448543006338         , 0.0000104838601742430714        , 1.19913433281610745e-6          , 1.76343283398517048e-7          , 3.16956873533981015e-8          , 6.73274320651064713e-9          , 1.65018131931267961e-9          , 4.58382860663265336e-10         , 1.42307565308469389e-10         , 4.88301881659173588e-11         , 1.8350375360986674e-11          , 7.49522922060379164e-12         , 3.30587962798345706e-12         , 1.56567244261120021e-12         , 7.92230228712947782e-13         , 4.26343820650530631e-13         , 2.429849346250616e-13           , 1.46063510742033938e-13         , 9.2240542405629435e-14          , 6.09559888058170697e-14         , 4.19894084139760102e-14         , 3.00354191979431093e-14         , 2.22272708919693458e-14         , 1.69571985292760747e-14         , 1.32918529620633601e-14         , 1.06717726025254235e-14         , 8.75149950039372743e-15         , 7.31176058509216163e-15         , 6.20977370597443406e-15         , 5.35033451551696579e-15         , 4.66855148305174303e-15         , 4.11928305038498571e-15         , 3.67052680818614168e-15         , 3.29919323611179092e-15         , 2.98834960864599647e-15         , },
+/* x = 30.7        */  {0.159946872632956549            , 0.00260499792561742801          , 0.000127280028938205464         , 0.0000103648232026801097        , 1.18165736762690859e-6          , 1.73207105247126985e-7          , 3.10305881311045015e-8          , 6.56999347289540833e-9          , 1.60504650854805664e-9          , 4.44393227634145201e-10         , 1.37515062808930152e-10         , 4.7032082254187064e-11          , 1.76171241574243486e-11         , 7.17233933803194209e-12         , 3.15320347795464115e-12         , 1.48854124234913882e-12         , 7.50786806716218792e-13         , 4.02760521843448704e-13         , 2.28829799414873533e-13         , 1.37137361529362395e-13         , 8.63499758826981059e-14         , 5.69035900772500431e-14         , 3.90942311543042697e-14         , 2.78953065390264241e-14         , 2.0596267538872512e-14          , 1.56799434683596644e-14         , 1.22672400071477718e-14         , 9.83216840279091549e-15         , 8.05049970205261656e-15         , 6.71677365748419297e-15         , 5.69741148768888746e-15         , 4.90347752934124495e-15         , 4.27443817428385565e-15         , 3.76823942802900524e-15         , 3.35510523176667192e-15         , 3.01357785902981543e-15         , 2.72793888507568731e-15         , },
+/* x = 30.8        */  {0.159687007517978144            , 0.00259232155061584575          , 0.000126249426165673551         , 0.0000102475183569207994        , 1.16449072169479035e-6          , 1.70136630733873422e-7          , 3.03815405199041768e-8          , 6.41168806351045367e-9          , 1.56128699522965021e-9          , 4.30873975201196457e-10         , 1.32898757829746442e-10         , 4.53057121414662888e-11         , 1.69154112458339733e-11         , 6.8643382246022313e-12          , 3.00803710314786299e-12         , 1.41543879027493737e-12         , 7.11632402405376197e-13         , 3.80549070925739119e-13         , 2.15538489805990007e-13         , 1.28780480721911453e-13         , 8.08505233409523038e-14         , 5.31302751075837614e-14         , 3.64051188193866394e-14         , 2.59120752681901626e-14         , 1.90880036891729365e-14         , 1.45010660782076158e-14         , 1.13231795395568775e-14         , 9.05977281241282067e-15         , 7.40650964822760362e-15         , 6.17085291553715345e-15         , 5.22782161793518343e-15         , 4.4943280575026207e-15          , 3.91389865699318751e-15         , 3.44735231092000705e-15         , 3.06698205324278763e-15         , 2.75284498899135702e-15         , 2.49034876406658433e-15         , },
+/* x = 30.9        */  {0.159428404906965571            , 0.00257974765221565575          , 0.000125230468553542427         , 0.0000101319149309007586        , 1.14762790417896528e-6          , 1.67130276691997276e-7          , 2.97481068861927859e-8          , 6.25769177144418046e-9          , 1.51885661045965765e-9          , 4.17807837096412877e-10         , 1.28451632031973794e-10         , 4.36479972073719327e-11         , 1.62437846361438549e-11         , 6.57049467067527751e-12         , 2.86998884874382316e-12         , 1.34614290222826294e-12         , 6.74634056848089476e-13         , 3.59625867639526393e-13         , 2.03055988859534015e-13         , 1.2095511863978215e-13          , 7.57152810855547284e-14         , 4.96162017579857964e-14         , 3.3906980901766466e-14          , 2.4073930173386235e-14          , 1.76930333703063333e-14         , 1.34128378524399464e-14         , 1.04532277445018708e-14         , 8.34912321350125417e-15         , 6.81483043492471412e-15         , 5.66990418974898152e-15         , 4.79739629985385539e-15         , 4.11967505545086622e-15         , 3.58404971891881755e-15         , 3.15401255445795298e-15         , 2.80377969715956639e-15         , 2.51481461553055719e-15         , 2.27356928541177854e-15         , },
+/* x = 31.0        */  {0.159171054610202181            , 0.00256727507435754446          , 0.000124222987468358203         , 0.0000100179828597962298        , 1.13106258038949737e-6          , 1.64186503049688795e-7          , 2.91298628890613816e-8          , 6.10787392150043348e-9          , 1.47771087738282932e-9          , 4.05178233721564737e-10         , 1.24166967999010408e-10         , 4.20559984388408688e-11         , 1.56008635374557304e-11         , 6.29011554298884774e-12         , 2.73868862725184176e-12         , 1.2804442809551405e-12          , 6.39666902234268643e-13         , 3.39912629074938153e-13         , 1.91330923331260251e-13         , 1.13626119228579509e-13         , 7.09192561101596947e-14         , 4.63429795069652857e-14         , 3.15858604470130246e-14         , 2.23699830488852636e-14         , 1.6402652132466252e-14          , 1.24081481194539771e-14         , 9.65146424205569467e-15         , 7.69520699587503311e-15         , 6.27115505949075897e-15         , 5.21017850493989511e-15         , 4.40283485010893624e-15         , 3.77658314148298945e-15         , 3.28225752949562211e-15         , 2.88583819891154311e-15         , 2.56332884261892942e-15         , 2.29749869445171557e-15         , 2.07576832615116194e-15         , },
+/* x = 31.1        */  {0.158914946552739077            , 0.00255490267769626895          , 0.000123226817251730836         , 9.90569270462227268e-6          , 1.11478856754352231e-6          , 1.61303811523197425e-7          , 2.8526397035471876e-8           , 5.96210820437802899e-9          , 1.43780694400079502e-9          , 3.92969242752291488e-10         , 1.20038335425603754e-10         , 4.05269114970529595e-11         , 1.49853346561291529e-11         , 6.02254369103286275e-12         , 2.61378666940357774e-12         , 1.21814573298583595e-12         , 6.06613647935307969e-13         , 3.21336037956276596e-13         , 1.8031531362515952e-13          , 1.06760736063442822e-13         , 6.64392264548152955e-14         , 4.32935605090461161e-14         , 2.94288469598749887e-14         , 2.0790181546778389e-14          , 1.52088378089039484e-14         , 1.14804538850729064e-14         , 8.91244898961349729e-15         , 7.09342404284174698e-15         , 5.77153539182535996e-15         , 4.78824270658017401e-15         , 4.04111734249954296e-15         , 3.46236876057417084e-15         , 3.00611593137321653e-15         , 2.64065457483119582e-15         , 2.34365008888957276e-15         , 2.09908416637655669e-15         , 1.89527580109287509e-15         , },
+/* x = 31.2        */  {0.158660070772738475            , 0.00254262933930625465          , 0.000122241795158502874         , 9.79501563724887421e-6          , 1.09879983064995995e-6          , 1.58480744353606102e-7          , 2.79373102516834675e-8          , 5.82027251742413978e-9          , 1.39910351885806638e-9          , 3.81165571089236758e-10         , 1.16059577981999098e-10         , 3.90580601442824733e-11         , 1.43959486971112528e-11         , 5.76715597450363151e-12         , 2.49495235084684836e-12         , 1.15906143518916489e-12         , 5.75364100514573688e-13         , 3.03827415035676576e-13         , 1.69964341466249468e-13         , 1.00328461786803156e-13         , 6.22536120341443863e-14         , 4.04521390167501036e-14         , 2.74239961372682866e-14         , 1.9325243708691659e-14          , 1.41041960825928622e-14         , 1.06237338027618089e-14         , 8.23118277541889233e-15         , 6.53955237728346027e-15         , 5.31235195506213049e-15         , 4.40095260711262925e-15         , 3.70948052988672681e-15         , 3.17457842257014363e-15         , 2.75342663248727045e-15         , 2.41647615956665395e-15         , 2.14293724256814811e-15         , 1.91791748369373152e-15         , 1.73056927223624304e-15         , },
+/* x = 31.3        */  {0.1584064174198462              , 0.00253045395239330188          , 0.000121267761296396216         , 9.6859234258223416e-6           , 1.0830904785184328e-6           , 1.55715883085677278e-7          , 2.73622154702867794e-8          , 5.68224881168099792e-9          , 1.36156080946832758e-9          , 3.6975252809047774e-10          , 1.12224800818233462e-10         , 3.76468900109463316e-11         , 1.38315170567748128e-11         , 5.52336140450012745e-12         , 2.38187308983771723e-12         , 1.10301624772574212e-12         , 5.4581471536478695e-13          , 2.87322413887789562e-13         , 1.60236134000164408e-13         , 9.43008699735421785e-14         , 5.83423551326805468e-14         , 3.78040585108236372e-14         , 2.55602558834356816e-14         , 1.7966597717128801e-14          , 1.3081910463941069e-14          , 9.83244592764807745e-15         , 7.60307100076212811e-15         , 6.02971669932987316e-15         , 4.89028627477316763e-15         , 4.04542843450044448e-15         , 3.40539584621698872e-15         , 2.91096883317721376e-15         , 2.52218113143485203e-15         , 2.21149003004668772e-15         , 1.95954208228091609e-15         , 1.75249051142237188e-15         , 1.58026084103267848e-15         , },
+/* x = 31.4        */  {0.15815397675359272             , 0.00251837542601225548          , 0.000120304558567096988         , 9.5783884205797663e-6           , 1.06765475988826035e-6          , 1.53007847387240908e-7          , 2.68007372322298702e-8          , 5.54792294495818749e-9          , 1.32514046335602984e-9          , 3.58716000022903966e-10         , 1.08528358675494221e-10         , 3.62909626842554201e-11         , 1.32909086962378408e-11         , 5.29059939158929549e-12         , 2.27425331144542541e-12         , 1.04984507034680055e-12         , 5.17868177812301828e-13         , 2.71760736523370988e-13         , 1.51091563123880928e-13         , 8.86514684943524212e-14         , 5.46868098270936646e-14         , 3.53357259358690757e-14         , 2.38273981067533116e-14         , 1.67063264437203301e-14         , 1.21356963171432042e-14         , 9.10148893951838717e-15         , 7.02389047415884482e-15         , 5.56035956993879753e-15         , 4.50229557656642633e-15         , 3.71903238417235684e-15         , 3.12654930776921597e-15         , 2.66948875216018922e-15         , 2.31054422369155462e-15         , 2.02404077072752802e-15         , 1.79196046975289946e-15         , 1.60142767953324478e-15         , 1.44308520873563835e-15         , },
+/* x = 31.5        */  {0.157902739141822107            , 0.00250639268479049568          , 0.000119352032608739799         , 9.47238354004475107e-6          , 1.05248705967354886e-6          , 1.50355293907654931e-7          , 2.62525113032464305e-8          , 5.41718454067499176e-9          , 1.28980551159437714e-9          , 3.4804242567341738e-10          , 1.04964844573266885e-10         , 3.4987950100944256e-11          , 1.27730471848031973e-11         , 5.0683380943010075e-12          , 2.17181347407953561e-12         , 9.99392239193493226e-13         , 4.91433011680663979e-13         , 2.57085868354689714e-13         , 1.42494058941233026e-13         , 8.33555635191930577e-14         , 5.12696396528899986e-14         , 3.30345324865401684e-14         , 2.22159558381709191e-14         , 1.55371164063687623e-14         , 1.1259758602902738e-14          , 8.42616654644087025e-15         , 6.48975896431785789e-15         , 5.12821501575217671e-15         , 4.14558963095095847e-15         , 3.41934809282135392e-15         , 2.87082314857143724e-15         , 2.44826242772060851e-15         , 2.11683894968157144e-15         , 1.85261670814036203e-15         , 1.63881968776103048e-15         , 1.46347427522304393e-15         , 1.31788880038693308e-15         , },
+/* x = 31.6        */  {0.157652695059148381            , 0.00249450466865711216          , 0.000118410031739753857         , 9.3678822575929837e-6           , 1.03758189532054068e-6          , 1.47756915173926443e-7          , 2.57171843041214546e-8          , 5.28992685222886025e-9          , 1.25552031472655004e-9          , 3.3771877306386724e-10          , 1.01529079042698361e-10         , 3.37356292275589307e-11         , 1.22769079037802888e-11         , 4.85607286201845036e-12         , 2.0742891544233703e-12          , 9.51510961445199089e-13         , 4.66423213447152141e-13         , 2.43244831152133928e-13         , 1.34409436319359669e-13         , 7.8390133368277711e-14          , 4.80747228864188975e-14         , 3.08887804335762403e-14         , 2.07171652484592076e-14         , 1.44522107791061382e-14         , 1.04487530328612671e-14         , 7.80215480488996327e-15         , 5.99710728019353981e-15         , 4.73028434982755062e-15         , 3.81760956169871635e-15         , 3.14416186828592438e-15         , 2.63627903936254949e-15         , 2.24557446930315045e-15         , 1.93953285798958967e-15         , 1.69583735487605883e-15         , 1.4988668961319546e-15          , 1.33748577360677938e-15         , 1.20361985735640704e-15         , },
+/* x = 31.7        */  {0.157403835085438639            , 0.00248271033257762689          , 0.000117478406904034477         , 9.26485858837661748e-6          , 1.02293391327352503e-6          , 1.45211438523137064e-7          , 2.51944133542535063e-8          , 5.16604663265710055e-9          , 1.22225051096247794e-9          , 3.27732517216509746e-10         , 9.82160998782062795e-11         , 3.25318770127275209e-11         , 1.18015154015351094e-11         , 4.6533247666083705e-12          , 1.98143018711386369e-12         , 9.0606278534534703e-13          , 4.42757910257077485e-13         , 2.30187952729913433e-13         , 1.26805733598421527e-13         , 7.37337114784629515e-14         , 4.5087064862034854e-14          , 2.88876155195013194e-14         , 1.93229121755758892e-14         , 1.34453661276635591e-14         , 9.69775035635870532e-15         , 7.2254721144247823e-15          , 5.5426536660665384e-15          , 4.36381402041768411e-15         , 3.51600844977803255e-15         , 2.89144552413726329e-15         , 2.42114275263490807e-15         , 2.05985603318113611e-15         , 1.77722546819189609e-15         , 1.55244195623703286e-15         , 1.37095860663778926e-15         , 1.22241811436848732e-15         , 1.09931941187882078e-15         , },
+/* x = 31.8        */  {0.157156149904322457            , 0.00247100864629413505          , 0.000116557011617404672         , 9.16328707659678162e-6          , 1.00853788554574567e-6          , 1.42717625069868936e-7          , 2.46838657279954648e-8          , 5.0454440093694074e-9           , 1.18996296654865377e-9          , 3.18071618919502871e-10         , 9.50211523808777214e-11         , 3.13746655967248536e-11         , 1.13459408911625813e-11         , 4.45963921748951372e-12         , 1.89299985574662594e-12         , 8.62917103300639805e-13         , 4.20361040182207128e-13         , 2.1786865218995872e-13          , 1.19653062577312808e-13         , 6.93662778086338562e-14         , 4.22927167893908768e-14         , 2.70209644910937944e-14         , 1.80256828048045995e-14         , 1.25108125705148797e-14         , 9.00220352331350188e-15         , 6.69245166526573843e-15         , 5.12338031756434012e-15         , 4.0262753160290786e-15          , 3.23863357940469646e-15         , 2.65934068073281557e-15         , 2.22379014829835677e-15         , 1.88967220620659018e-15         , 1.6286368279804175e-15          , 1.42127904225261808e-15         , 1.25405108646957206e-15         , 1.11731884017201013e-15         , 1.00411306479169955e-15         , },
+/* x = 31.9        */  {0.156909630301727               , 0.00245939859407073675          , 0.00011564570191533251          , 9.06314278311389475e-6          , 9.94388706391868272e-7          , 1.40274268707378479e-7          , 2.41852185232773637e-8          , 4.92802236373884423e-9          , 1.15862572821340434e-9          , 3.0872450444452049e-10          , 9.19396800686273158e-11         , 3.02620577644781674e-11         , 1.09092998826885783e-11         , 4.27458465516846243e-12         , 1.80877413200755378e-12         , 8.2195068590521168e-13          , 3.99161053222492284e-13         , 2.06243239637550015e-13         , 1.12923468963130033e-13         , 6.52691580590792608e-14         , 3.96787005773908585e-14         , 2.52794773700073793e-14         , 1.68185181730997322e-14         , 1.16432170897011528e-14         , 8.35791748823510632e-15         , 6.1997161356891193e-15          , 4.73651184096537126e-15         , 3.7153457696647379e-15          , 2.9835101859718838e-15          , 2.44614440648656706e-15         , 2.04273436545694448e-15         , 1.73371048317114757e-15         , 1.49259706854589183e-15         , 1.30129689637819077e-15         , 1.14719160800602481e-15         , 1.02131902015456605e-15         , 9.17203494740122115e-16         , },
+/* x = 32.0        */  {0.156664267164437336            , 0.0024478791744441355           , 0.000114744336301870974         , 8.96440127338579227e-6          , 9.80481389078693443e-7          , 1.37880195141313679e-7          , 2.36981583420357018e-8          , 4.81368821534841523e-9          , 1.12820797759469811e-9          , 2.99680046171004982e-10         , 8.89673158294303995e-11         , 2.91922026289451452e-11         , 1.0490749942190457e-11          , 4.09775131858144266e-12         , 1.72854095993984152e-12         , 7.83047244886036094e-13         , 3.79090631654969137e-13         , 1.95270729360388865e-13         , 1.06590802532258064e-13         , 6.14249301272570967e-14         , 3.72329392095926968e-14         , 2.36544740944407249e-14         , 1.56949721954977655e-14         , 1.08376497382547699e-14         , 7.76102143982625015e-15         , 5.74415445316237627e-15         , 4.3794954931591721e-15          , 3.4288921185678429e-15          , 2.74882657768964349e-15         , 2.25029608405024224e-15         , 1.87661411577922057e-15         , 1.59077024239747311e-15         , 1.3680368706554161e-15          , 1.19153486005481048e-15         , 1.04951046991528322e-15         , 9.3362588867281823e-16          , 8.37863633541811228e-16         , },
+/* x = 32.1        */  {0.156420051478681435            , 0.00243644939997928312          , 0.000113852775699788012         , 8.86703860572400385e-6          , 9.66811062750919254e-7          , 1.35534260954817172e-7          , 2.32223809819934273e-8          , 4.70235111069943455e-9          , 1.09867998756200407e-9          , 2.90927544073881809e-10         , 8.60998734952164696e-11         , 2.81633315325340941e-11         , 1.00894885706764352e-11         , 3.92875008186999779e-12         , 1.65209958254879935e-12         , 7.46097023100594373e-13         , 3.60086428430862979e-13         , 1.84912665535225171e-13         , 1.00630596306477549e-13         , 5.78173372660848442e-14         , 3.49441922510948068e-14         , 2.21378951937362112e-14         , 1.46490729357263981e-14         , 1.00895525116926104e-14         , 7.20794325845062874e-15         , 5.32290044870807608e-15         , 4.04998305338145725e-15         , 3.16495468804041916e-15         , 2.53292051378817336e-15         , 2.07036539608884046e-15         , 1.72418298305637481e-15         , 1.45975313254542896e-15         , 1.25397876157850001e-15         , 1.09111539946386567e-15         , 9.60213721293717692e-16         , 8.53516135704738264e-16         , 7.65430448255671224e-16         , },
+/* x = 32.2        */  {0.156176974328739355            , 0.00242510829702995321          , 0.000112970883401855452         , 8.77103131985883101e-6          , 9.53372969388870734e-7          , 1.33235352703902093e-7          , 2.27575911393537458e-8          , 4.59392351619653569e-9          , 1.07001308034792295e-9          , 2.82456708033740576e-10         , 8.33333398152061154e-11         , 2.71737541549306104e-11         , 9.70475119598768516e-12         , 3.76721135648905303e-12         , 1.57925990812744282e-12         , 7.10996409843147946e-13         , 3.42088822412119134e-13         , 1.75132959593211449e-13         , 9.5019954098839854e-14          , 5.44312074512416225e-14         , 3.28019960993992107e-14         , 2.07222561844449306e-14         , 1.36752868654350607e-14         , 9.39471066999167116e-15         , 6.69538602006978938e-15         , 4.93331324823455857e-15         , 3.74581419041690029e-15         , 2.92173307911462123e-15         , 2.33426673220792018e-15         , 1.9050413344524432e-15          , 1.58429964185683293e-15         , 1.33965429124460715e-15         , 1.14952917005118234e-15         , 9.99236867332496022e-16         , 8.78576526617439835e-16         , 7.80329790985857771e-16         , 6.99299275821145864e-16         , },
+/* x = 32.3        */  {0.155935026895576132            , 0.00241385490550412926          , 0.000112098525023266346         , 8.67635642580417777e-6          , 9.40162460855222907e-7          , 1.30982386042030365e-7          , 2.23035021219890004e-8          , 4.48832071523239035e-9          , 1.04217958740930754e-9          , 2.74257640930551697e-10         , 8.06638668086051662e-11         , 2.62218548163486067e-11         , 9.33580927138435689e-12         , 3.61278405479907776e-12         , 1.50984191385428175e-12         , 6.77647579832595543e-13         , 3.25041689322321411e-13         , 1.65897738437277212e-13         , 8.97374458315201822e-14         , 5.12523785012035307e-14         , 3.07966086216476632e-14         , 1.94006054009141723e-14         , 1.27684858769475349e-14         , 8.74922631384118283e-15         , 6.22030638021729002e-15         , 4.57295925761839866e-15         , 3.46500120046501043e-15         , 2.69757305009515317e-15         , 2.15146552889682301e-15         , 1.75312214487028257e-15         , 1.45591891577164108e-15         , 1.22955432312030105e-15         , 1.05387117288050013e-15         , 9.15166898587211315e-16         , 8.0393711481183437e-16          , 7.134646491256643e-16           , 6.38918660981788042e-16         , },
+/* x = 32.4        */  {0.15569420045549789             , 0.0024026882786340957           , 0.000111235568455151205         , 8.5829913930133793e-6           , 9.27174996027848936e-7          , 1.28774304872864142e-7          , 2.18598355727231717e-8          , 4.38546070920304318e-9          , 1.01515281094138293e-9          , 2.6632082248394253e-10          , 7.80877644776369475e-11         , 2.53060889658386115e-11         , 8.98196847484960174e-12         , 3.46513461153095944e-12         , 1.44367508437194496e-12         , 6.45958154363464999e-13         , 3.08892187364715173e-13         , 1.5717520276237236e-13          , 8.47630100717463093e-14         , 4.82676285280978654e-14         , 2.89189578481781634e-14         , 1.81664849960097675e-14         , 1.19239168332492012e-14         , 8.14949403491268963e-15         , 5.77989468529359024e-15         , 4.2395956102702802e-15          , 3.20571500138753896e-15         , 2.49095449135289815e-15         , 1.98323229923669187e-15         , 1.61350612689227888e-15         , 1.3380836026662452e-15          , 1.12861197112298135e-15         , 9.66257872636976238e-16         , 8.38236384066847073e-16         , 7.35691260780972049e-16         , 6.52371187654557195e-16         , 5.83785652617311662e-16         , },
+/* x = 32.5        */  {0.155454486378830719            , 0.00239160748275112366          , 0.000110381883819164458         , 8.49091413981755517e-6          , 9.1440613801602587e-7           , 1.26610080530200433e-7          , 2.14263212023230781e-8          , 4.28526412229223585e-9          , 9.88906986971982347e-10         , 2.58637093804907918e-10         , 7.56014938629010038e-11         , 2.44249798448651674e-11         , 8.64256700349559457e-12         , 3.32394605973391788e-12         , 1.38059788320200893e-12         , 6.15840883202662415e-13         , 2.93590556532266658e-13         , 1.4893549478276304e-13          , 8.00778632724846817e-14         , 4.54646113291804789e-14         , 2.71605944177359474e-14         , 1.70138948683380269e-14         , 1.1137173456205124e-14          , 7.59217847452351518e-15         , 5.37155667103697106e-15         , 3.93115495685553057e-15         , 2.96627227868353791e-15         , 2.3004804013080833e-15          , 1.82838795979603825e-15         , 1.48518321574110901e-15         , 1.22991700066958979e-15         , 1.03605742085604434e-15         , 8.86006351211210751e-16         , 7.67833971438870829e-16         , 6.73287252326188472e-16         , 5.96547934235460148e-16         , 5.33441517623316548e-16         , },
+/* x = 32.6        */  {0.155215876128621851            , 0.00238061159706464571          , 0.000109537343423113296         , 8.40010302313828585e-6          , 9.01851551457327601e-7          , 1.2448871098413661e-7           , 2.1002696531829161e-8           , 4.18765410987020979e-9          , 9.63417249966437609e-10         , 2.51197642625583199e-10         , 7.32016604239979451e-11         , 2.35771153169101547e-11         , 8.31697395778403057e-12         , 3.18891715802432516e-12         , 1.32045725498837447e-12         , 5.87213345908713122e-13         , 2.79089930701769062e-13         , 1.41150574719994096e-13         , 7.56644152421016776e-14         , 4.28317963580214431e-14         , 2.55136474930685936e-14         , 1.59372592914271221e-14         , 1.04041703698865379e-14         , 7.07419363849892983e-15         , 4.99289661955039452e-15         , 3.6457314868589778e-15          , 2.7451236873472989e-15          , 2.12486677936568808e-15         , 1.68585017561884762e-15         , 1.36722727907224441e-15         , 1.13061607439414786e-15         , 9.51186182872377923e-16         , 8.12492148868034201e-16         , 7.03401046957948526e-16         , 6.1622129956163454e-16          , 5.45537243174674909e-16         , 4.87467835132483732e-16         , },
+/* x = 32.7        */  {0.154978361259362701            , 0.0023696997134458167           , 0.000108701821717601854         , 8.31053682846667326e-6          , 8.89506999892628048e-7          , 1.22409220072550672e-7          , 2.05887066438718485e-8          , 4.09255627035925894e-9          , 9.38659598876917241e-10         , 2.4399398917536845e-10          , 7.08850077292584723e-11         , 2.27611448543720406e-11         , 8.00458781058196442e-12         , 3.05976156614759402e-12         , 1.26310815668942778e-12         , 5.59997671337873762e-13         , 2.65346161666324541e-13         , 1.33794105450951808e-13         , 7.15061904019396274e-14         , 4.03584129415184187e-14         , 2.39707838871981146e-14         , 1.49313960379000163e-14         , 9.72111913047766156e-15         , 6.59268382836442105e-15         , 4.64170185682975773e-15         , 3.38156808085927362e-15         , 2.54084302182509665e-15         , 1.96293335871970166e-15         , 1.55462532466547336e-15         , 1.258789067423094e-15           , 1.03944520613915768e-15         , 8.73353502722125152e-16         , 7.45144222859820349e-16         , 6.44427155801631329e-16         , 5.6403334774078999e-16          , 4.98921444918239687e-16         , 4.45482937197758166e-16         , },
+/* x = 32.8        */  {0.154741933415733343            , 0.00235887093621536055          , 0.000107875195253664501         , 8.22219476010109954e-6          , 8.77368343216727445e-7          , 1.20370656757014796e-7          , 2.01841039426339385e-8          , 3.9998985604247685e-9           , 9.14610864573096645e-10         , 2.37017972673266088e-10         , 6.86484114392632331e-11         , 2.1975776674514334e-11          , 7.70483495636344663e-12         , 2.93620706604723448e-12         , 1.20841311595865469e-12         , 5.34120274183131135e-13         , 2.52317654318437221e-13         , 1.26841344757939707e-13         , 6.75877544228705224e-14         , 3.80343984338205158e-14         , 2.25251701605398876e-14         , 1.3991487807843779e-14          , 9.08450608764785069e-15         , 6.14500606031356388e-15         , 4.31592848242612822e-15         , 3.13704450078196329e-15         , 2.3521172736630585e-15          , 1.81359510848412514e-15         , 1.43380113687566147e-15         , 1.15908976241355507e-15         , 9.55730481628296625e-16         , 8.01969252922905539e-16         , 6.83440343697554241e-16         , 5.90445822450572178e-16         , 5.1630325787507386e-16          , 4.56319335454216548e-16         , 4.07138665086370185e-16         , },
+/* x = 32.9        */  {0.15450658433136798             , 0.00234812438193560534          , 0.000107057342641362723         , 8.13505643163624236e-6          , 8.6543153520220108e-7           , 1.18372094402293985e-7          , 1.97886479221332578e-8          , 3.90961121335663941e-9          , 8.91248678593983478e-10         , 2.30261738407784817e-10         , 6.64888735696418438e-11         , 2.12197750166717405e-11         , 7.41716833613938964e-12         , 2.81799482580557063e-12         , 1.15624181506492725e-12         , 5.0951160746815648e-13          , 2.39965212249766825e-13         , 1.20269044662068562e-13         , 6.38946458616140704e-14         , 3.58503500212997989e-14         , 2.11704374673631964e-14         , 1.3113055785466523e-14          , 8.49107193460283667e-15         , 5.72871385378318866e-15         , 4.01368823175708253e-15         , 2.91066653309883294e-15         , 2.17773750318915871e-15         , 1.67585444059014552e-15         , 1.32253995067270771e-15         , 1.06741507158283439e-15         , 8.78854464212665537e-16         , 7.36493265027032845e-16         , 6.26902890858802929e-16         , 5.41030735982193827e-16         , 4.72647322684090424e-16         , 4.17382975486449889e-16         , 3.72117413090335951e-16         , },
+/* x = 33.0        */  {0.154272305827641016            , 0.00233745917920661146          , 0.000106248144509320841         , 8.0491018566961412e-6           , 8.53692621094153064e-7          , 1.16412630078613507e-7          , 1.94021049425130671e-8          , 3.82162666051187465e-9          , 8.68551443163514767e-10         , 2.23717725377175848e-10         , 6.44035170193969091e-11         , 2.04919575533513634e-11         , 7.14106613395357963e-12         , 2.70487870398021799e-12         , 1.10647069880789064e-12         , 4.86105929989147352e-13         , 2.28251893083613099e-13         , 1.14055357357789831e-13         , 6.04133124451142529e-14         , 3.37974799140018782e-14         , 1.99006489469843917e-14         , 1.22919351618372222e-14         , 7.93779281536207811e-15         , 5.34154228100288057e-15         , 3.73323637972775742e-15         , 2.70105600699328358e-15         , 2.01659045775081917e-15         , 1.54879406235893967e-15         , 1.22007253461573159e-15         , 9.83109823151413683e-16         , 8.08251415467121363e-16         , 6.76431063611984936e-16         , 5.75095013067449297e-16         , 4.95792268246678893e-16         , 4.32715088294304371e-16         , 3.81794771927327336e-16         , 3.40129434268740053e-16         , },
+/* x = 33.1        */  {0.154039089812473303            , 0.00232687446846630042          , 0.000105447483465176521         , 7.96431143990433645e-6          , 8.42147735273637774e-7          , 1.14491383885909448e-7          , 1.90242480140403235e-8          , 3.73587945569470839e-9          , 8.46498302415198117e-10         , 2.17378654464106609e-10         , 6.23895803517147299e-11         , 1.97911929282703757e-11         , 6.87603054102278219e-12         , 2.59662459200995613e-12         , 1.05898260498124406e-12         , 4.63841087763528986e-13         , 2.17142872902703017e-13         , 1.08179747300283092e-13         , 5.71310516767288422e-14         , 3.18675736786783731e-14         , 1.87102694706646176e-14         , 1.15242524741207018e-14         , 7.42186286822856971e-15         , 4.98139417764088783e-15         , 3.47296060179249041e-15         , 2.50694161597240433e-15         , 1.86765087468479997e-15         , 1.43157042066216821e-15         , 1.125692426374024e-15           , 9.05573018019040858e-16         , 7.43402923756262049e-16         , 6.21329967351557735e-16         , 5.27617121339717135e-16         , 4.543742957193769e-16           , 3.9618645472415996e-16          , 3.49264816699519248e-16         , 3.10910384821858061e-16         , },
+/* x = 33.2        */  {0.153806928279158193            , 0.00231636940179449366          , 0.00010465524405692269          , 7.88066596808432343e-6          , 8.30793098987588715e-7          , 1.126074982993061e-7            , 1.86548565885240022e-8          , 3.65230620235600401e-9          , 8.25069114773594849e-10         , 2.11237517120146843e-10         , 6.0444412814901023e-11          , 1.91163984147524006e-11         , 6.6215865838244447e-12          , 2.49300979250375049e-12         , 1.01366641602769847e-12         , 4.42658308606041723e-13         , 2.06605319178090487e-13         , 1.0262290902883887e-13          , 5.40359554615553521e-14         , 3.00529514866786589e-14         , 1.7594137569553955e-14          , 1.08064046233377572e-14         , 6.94067809399756744e-15         , 4.64632742270791347e-15         , 3.23137071543956104e-15         , 2.32715047732610558e-15         , 1.7299744123726853e-15          , 1.32340768815763917e-15         , 1.03875074527989569e-15         , 8.34253299982966474e-16         , 6.83833905676354542e-16         , 5.70775525364044378e-16         , 4.84103685780869208e-16         , 4.16451298398665936e-16         , 3.62769030581709899e-16         , 3.1952846006103769e-16          , 2.84219085877237886e-16         , },
+/* x = 33.3        */  {0.15357581330520698             , 0.00230594314272077371          , 0.000103871312735118164         , 7.79814660168377528e-6          , 8.19625018143168757e-7          , 1.10760137535092058e-7          , 1.82937163578772507e-8          , 3.57084548349874646e-9          , 8.04244426442844633e-10         , 2.05287564536645862e-10         , 5.85654695917196246e-11         , 1.84665376882637799e-11         , 6.37728101264748594e-12         , 2.39382243135799961e-12         , 9.70416730614438669e-13         , 4.22502009010125333e-13         , 1.96608271645187855e-13         , 9.73666903385409159e-14         , 5.11168584700384062e-14         , 2.83464320667724748e-14         , 1.65474393822785632e-14         , 1.01350394433790824e-14         , 6.49182144626015519e-15         , 4.33454320326325491e-15         , 3.00708923136634796e-15         , 2.16060036925791057e-15         , 1.60269115747416265e-15         , 1.22359224627261883e-15         , 9.5865143844774518e-16          , 7.68644808515724757e-16         , 6.29108948319122435e-16         , 5.24388259806190121e-16         , 4.44220309660897465e-16         , 3.81725711465227158e-16         , 3.32195719576516714e-16         , 2.92344097693775477e-16         , 2.59835483361619406e-16         , },
+/* x = 33.4        */  {0.153345737051213378            , 0.00229559486603608166          , 0.000103095577815944941         , 7.716734866416194e-6            , 8.08639881164527144e-7          , 1.08948486936494005e-7          , 1.79406190595582227e-8          , 3.49143779418131916e-9          , 7.84005445954715751e-10         , 1.99522297279721445e-10         , 5.67503072660169489e-11         , 1.78406187072092914e-11         , 6.14268124732093476e-12         , 2.29886090177018127e-12         , 9.29133553937419666e-13         , 4.03319612566016614e-13         , 1.87122530610348121e-13         , 9.23940204396141841e-14         , 4.83632899792101187e-14         , 2.67412991684957168e-14         , 1.55656844729950965e-14         , 9.50703770385536592e-15         , 6.07304904925928478e-15         , 4.04437518624861233e-15         , 2.7988426493776088e-15          , 2.00629259048266946e-15         , 1.48499966076879687e-15         , 1.13146762343541501e-15         , 8.84846923857594523e-16         , 7.08283381506323e-16            , 5.78828963078032119e-16         , 4.81820688211069578e-16         , 4.07661056617318443e-16         , 3.49925507557862086e-16         , 3.04222518429883957e-16         , 2.67491152640740742e-16         , 2.37558788356767683e-16         , },
+/* x = 33.5        */  {0.15311669175973665             , 0.00228532375760796753          , 0.000102327929445090699         , 7.63641264511384684e-6          , 7.97834156910017471e-7          , 1.07171752378573134e-7          , 1.75953622886350326e-8          , 3.41402547651489756e-9          , 7.64334019730838452e-10         , 1.9393545536816368e-10          , 5.49965794960869076e-11         , 1.72376916964259394e-11         , 5.91737437702252973e-12         , 2.20793333833247952e-12         , 8.89722005637161662e-13         , 3.85061379196874218e-13         , 1.78120552206208733e-13         , 8.76888427689219789e-14         , 4.5765428949629159e-14          , 2.52312703559576608e-14         , 1.46446833820184053e-14         , 8.91949643844237325e-15         , 5.68227745620755879e-15         , 3.77427952600335126e-15         , 2.60545343932898355e-15         , 1.86330539164185944e-15         , 1.3761614580092421e-15          , 1.04642985055782418e-15         , 8.16834096918876396e-16         , 6.52743078168064826e-16         , 5.32628124250749456e-16         , 4.42754601375822472e-16         , 3.74146008948674694e-16         , 3.20801989470869312e-16         , 2.78626507573621384e-16         , 2.44768234857675586e-16         , 2.17205781907154558e-16         , },
+/* x = 33.6        */  {0.152888669754203041            , 0.00227512901419941196          , 0.0001015682595624357           , 7.55716216978603644e-6          , 7.87204392647997085e-7          , 1.0542915969159409e-7           , 1.72577493162304176e-8          , 3.33855265705572174e-9          , 7.45212608615846702e-10         , 1.8852100877408432e-10          , 5.33020328847719405e-11         , 1.66568472281143316e-11         , 5.70096621124556482e-12         , 2.1208571194971942e-12          , 8.5209204427822282e-13          , 3.67680244540785592e-13         , 1.69576350146379217e-13         , 8.32360521414113715e-14         , 4.33140621134185717e-14         , 2.38104679653097792e-14         , 1.37805267815388602e-14         , 8.36971349874141784e-15         , 5.31757186783052053e-15         , 3.52282564173665828e-15         , 2.42583265229096655e-15         , 1.73078793206231211e-15         , 1.27549603582601086e-15         , 9.67923198974830185e-16         , 7.54150669880143941e-16         , 6.01632994873485377e-16         , 4.90171068003953123e-16         , 4.06898574710880256e-16         , 3.43419036891599238e-16         , 2.94127774855416118e-16         , 2.55204017673257329e-16         , 2.23991462675368577e-16         , 1.98609269676803298e-16         , },
+/* x = 33.7        */  {0.15266166343782514             , 0.00226500984329113986          , 0.000100816461867523828         , 7.4789660138769378e-6           , 7.76747212089392139e-7          , 1.0371995410224028e-7           , 1.69275889141114048e-8          , 3.26496518649723845e-9          , 7.26624265340121439e-10         , 1.83273148327116807e-10         , 5.16645030368075316e-11         , 1.60972143952309565e-11         , 5.49308037916795703e-12         , 2.03745839680722893e-12         , 8.16158207409547261e-13         , 3.5113166884992841e-13          , 1.61465403560179302e-13         , 7.90214359509528368e-14         , 4.10005448648613283e-14         , 2.24733920713378841e-14         , 1.29695661185531412e-14         , 7.85517324137957021e-15         , 4.97713523720512996e-15         , 3.28868770448865117e-15         , 2.25897311156188198e-15         , 1.60795471921122341e-15         , 1.18237620605454947e-15         , 8.95436268979159685e-16         , 6.96371816055757022e-16         , 5.54594349013091853e-16         , 4.51150329377991987e-16         , 3.73985692883705517e-16         , 3.15245760533793594e-16         , 2.69694956127608668e-16         , 2.33768956511187261e-16         , 2.04992931863147799e-16         , 1.81616673154120687e-16         , },
+/* x = 33.8        */  {0.152435665292538855            , 0.00225496546290734854          , 0.00010007243178579811          , 7.40180708471741388e-6          , 7.66459313475274033e-7          , 1.02043399692072394e-7          , 1.66046951851985776e-8          , 3.1932105815711394e-9           , 7.08552612872701264e-10         , 1.78186277003896982e-10         , 5.00819107944017327e-11         , 1.55579590726324093e-11         , 5.29335747482337122e-12         , 1.95757164938015919e-12         , 7.81839366283709744e-13         , 3.35373494818669574e-13         , 1.53764570516172151e-13         , 7.50316191501207336e-14         , 3.88167647598921049e-14         , 2.12148953199776405e-14         , 1.22083956360001271e-14         , 7.37353326317286726e-15         , 4.65929819276499862e-15         , 3.07063677794238983e-15         , 2.10394313724516179e-15         , 1.49408049170848435e-15         , 1.09622385490552244e-15         , 8.28498399770315148e-16         , 6.43107093222602779e-16         , 5.11297808109008478e-16         , 4.15283996936569748e-16         , 3.43771469343363452e-16         , 2.89411687620007577e-16         , 2.47313420263034131e-16         , 2.1415128213171452e-16          , 1.87619319253978056e-16         , 1.66088745288654686e-16         , },
+/* x = 33.9        */  {0.152210667877957634            , 0.00224499510144477493          , 0.0000993360664355815727        , 7.32566861616539383e-6          , 7.5633746771775214e-7           , 1.00398778872649078e-7          , 1.62888873997784381e-8          , 3.12323796907017612e-9          , 6.90981823626709248e-10         , 1.73255001585432189e-10         , 4.8552258642499363e-11          , 1.50382822615152189e-11         , 5.10145424562087387e-12         , 1.88103926222370298e-12         , 7.49058494369988135e-13         , 3.20365813790189838e-13         , 1.4645200686933776e-13          , 7.12540127571292211e-14         , 3.67551074446126528e-14         , 2.00301594940395763e-14         , 1.14938356712796253e-14         , 6.92261210571799053e-15         , 4.36250971668272438e-15         , 2.86753356188698698e-15         , 1.9598807618569839e-15          , 1.38849550997355946e-15         , 1.01650603619272349e-15         , 7.6667637409188002e-16          , 5.93997622717824799e-16         , 4.71441043364765985e-16         , 3.82313566426789283e-16         , 3.1603194391223107e-16          , 2.65720511971765158e-16         , 2.26809314504127663e-16         , 1.96195609395157429e-16         , 1.71730609048392077e-16         , 1.51898399522875483e-16         , },
+/* x = 34.0        */  {0.151986663830343628            , 0.00223509799750502814          , 0.0000986072645957848606        , 7.25053416142956463e-6          , 7.46378516592544764e-7          , 9.87853918767499183e-8          , 1.59799898372108922e-8          , 3.05499803190931128e-9          , 6.7389659948134173e-10          , 1.68474124665799675e-10         , 4.70736272756141511e-11         , 1.45374185129333181e-11         , 4.91704282189757021e-12         , 1.80771112704423108e-12         , 7.17742448849451428e-13         , 3.06070839826508079e-13         , 1.39507090091032477e-13         , 6.76767656554783784e-14         , 3.48084248457382534e-14         , 1.89146736891290201e-14         , 1.08229171388895554e-14         , 6.50037785680779058e-15         , 4.08532852075283797e-15         , 2.67832169121081905e-15         , 1.82598839787303651e-15         , 1.29058122153289376e-15         , 9.42731380391699544e-16         , 7.09571393076736219e-16         , 5.48713502759977633e-16         , 4.34746488614363414e-16         , 3.52001976422138654e-16         , 2.9056194309130066e-16          , 2.43992558576616598e-16         , 2.08023645234383322e-16         , 1.79759938222965729e-16         , 1.57198930968273858e-16         , 1.38929642164785749e-16         , },
+/* x = 34.1        */  {0.151763645861595444            , 0.00222527339973011574          , 0.0000978859266743225279        , 7.17638758607128784e-6          , 7.36579370981645255e-7          , 9.7202556265161273e-8           , 1.56778316329320458e-8          , 2.98844295714528028e-9          , 6.57282152586081002e-10         , 1.63838636996406116e-10         , 4.56441723185225256e-11         , 1.4054634426400192e-11          , 4.7398099853185406e-12          , 1.73744426428861537e-12         , 6.87821764330097779e-13         , 2.92452791159719781e-13         , 1.32910347763509775e-13         , 6.42887194679747221e-14         , 3.29700054677297469e-14         , 1.78642139857192683e-14         , 1.01928671108959667e-14         , 6.10493758162445891e-15         , 3.82641506642089731e-15         , 2.50202154705269564e-15         , 1.70152792128343342e-15         , 1.19976627071762025e-15         , 8.74446793645925172e-16         , 6.56816298875183254e-16         , 5.06951436337075408e-16         , 4.00959287261975983e-16         , 3.24131810388710364e-16         , 2.67173489058134839e-16         , 2.24063362620468602e-16         , 1.90810998392726143e-16         , 1.64714492849943041e-16         , 1.43907500391488763e-16         , 1.27076598942069882e-16         , },
+/* x = 34.2        */  {0.151541606758252209            , 0.00221552056664109365          , 0.0000971719546772204343        , 7.10321306117980909e-6          , 7.2693700916455313e-7           , 9.5649606448505097e-8           , 1.53822466305603293e-8          , 2.92352638587799328e-9          , 6.41124186914332724e-10         , 1.59343710150791162e-10         , 4.42621211935013334e-11         , 1.35892272197951336e-11         , 4.56945647406063172e-12         , 1.67010246523355161e-12         , 6.59230458066740209e-13         , 2.79477778573020511e-13         , 1.26643390441853403e-13         , 6.10793663017587602e-14         , 3.12335466523493204e-14         , 1.68748245116383298e-14         , 9.60109541539520128e-15         , 5.73452752178859879e-15         , 3.58452417976676393e-15         , 2.33772454018481406e-15         , 1.58581613812606968e-15         , 1.11552282496073566e-15         , 8.112344229844214e-16           , 6.08073024522094141e-16         , 4.68432555670352087e-16         , 3.69845411291622426e-16         , 2.98503650955301581e-16         , 2.45694344552782185e-16         , 2.05782370847400332e-16         , 1.75038370821899511e-16         , 1.50940662342166261e-16         , 1.31749651472900249e-16         , 1.1624262739346232e-16          , },
+/* x = 34.3        */  {0.151320539380513597            , 0.00220583876647977153          , 0.0000964652521783971558        , 7.03099505671597791e-6          , 7.17448475156591119e-7          , 9.41258932236097008e-8          , 1.50930732389214594e-8          , 2.86020336496041367e-9          , 6.25408880535154669e-10         , 1.5498468949567106e-10          , 4.29257701271597008e-11         , 1.31405233669935722e-11         , 4.40569632283174188e-12         , 1.60555595300581459e-12         , 6.31905846014028098e-13         , 2.67113700288806829e-13         , 1.20688848605806784e-13         , 5.80388091748827626e-14         , 2.95931286665631245e-14         , 1.59427997969120883e-14         , 9.04518217908024923e-15         , 5.38750400506740336e-15         , 3.35849821608209908e-15         , 2.18458782986921444e-15         , 1.47822060363245963e-15         , 1.03736319217673723e-15         , 7.52708865981738351e-16         , 5.63030252221075579e-16         , 4.3290042678560946e-16          , 3.41189937785909494e-16         , 2.74934573392161986e-16         , 2.25966681957077744e-16         , 1.89011754644745627e-16         , 1.60584102875249531e-16         , 1.38330033498183246e-16         , 1.20627955054056794e-16         , 1.0633950749521406e-16          , },
+/* x = 34.4        */  {0.151100436661275548            , 0.00219622727705340696          , 0.0000957657242901027908        , 6.95971833501984138e-6          , 7.08110877092878234e-7          , 9.26307833239394902e-8          , 1.48101542938149304e-8          , 2.79843030044661216e-9          , 6.10122868573139589e-10         , 1.50757087454595847e-10         , 4.16334812902636971e-11         , 1.27078772998307981e-11         , 4.24825623588560499e-12         , 1.54368106148199699e-12         , 6.05788369081906781e-13         , 2.55330142967973322e-13         , 1.1503031344227385e-13          , 5.51577249479114089e-14         , 2.80431904941594069e-14         , 1.50646683300169469e-14         , 8.52286624552222115e-15         , 5.06233501290231039e-15         , 3.14726073221027957e-15         , 2.04182944434201262e-15         , 1.37815576606602443e-15         , 9.64836705792195994e-16         , 6.98514604893457605e-16         , 5.21401262799725881e-16         , 4.00119219117046671e-16         , 3.14795469635749241e-16         , 2.53256766421178673e-16         , 2.0784586588604341e-16          , 1.7362532517570672e-16          , 1.47336903454779423e-16         , 1.26783508033984141e-16         , 1.10453413889720832e-16         , 9.72867035964835257e-17         , },
+/* x = 34.5        */  {0.150881291605181365            , 0.00218668538558232356          , 0.0000950732776339990019        , 6.88936794447761553e-6          , 6.98921385656576387e-7          , 9.11636589836181082e-8          , 1.45333369243516113e-8          , 2.73816491271062225e-9          , 5.95253226827845247e-10         , 1.46656577051237066e-10         , 4.03836800642825011e-11         , 1.22906701711872587e-11         , 4.0968749912941345e-12          , 1.48435993107741583e-12         , 5.80821429001138511e-13         , 2.44098288449584733e-13         , 1.09652281216310964e-13         , 5.24273295960375592e-14         , 2.6578507215212237e-14          , 1.42371772311765586e-14         , 8.03203440585819659e-15         , 4.75759235693501215e-15         , 2.94981062806572899e-15         , 1.90872377175779105e-15         , 1.28507940957892692e-15         , 8.97526855908655032e-16         , 6.483236469517563e-16           , 4.82921960532940028e-16         , 3.69872026342630139e-16         , 2.90480688258836174e-16         , 2.33316269501465396e-16         , 1.91199339535060394e-16         , 1.59507541725196853e-16         , 1.35194959427066283e-16         , 1.16210496665843754e-16         , 1.01144728380768074e-16         , 8.90106913531059606e-17         , },
+/* x = 34.6        */  {0.150663097287687907            , 0.00217721238855038969          , 0.0000943878203128645732        , 6.81992921334367418e-6          , 6.89877232550073791e-7          , 8.97239175145961161e-8          , 1.42624724236986183e-8          , 2.67936619317151947e-9          , 5.80787456025432105e-10         , 1.42678985719934326e-10         , 3.91748524286974243e-11         , 1.18883086761525358e-11         , 3.95130287483551871e-12         , 1.4274802204912939e-12          , 5.56951233242406146e-13         , 2.33390825883516594e-13         , 1.04540101004314805e-13         , 4.98393456683809053e-14         , 2.51941688656488695e-14         , 1.34572779644303215e-14         , 7.57071138327099164e-15         , 4.47194441941735171e-15         , 2.76521672174156365e-15         , 1.7845973928893128e-15          , 1.19848937247641304e-15         , 8.35048646834021969e-16         , 6.01833354018861295e-16         , 4.47349058852163725e-16         , 3.41959325815593729e-16         , 2.68079027182932424e-16         , 2.14971816667096737e-16         , 1.75905605870852342e-16         , 1.46552605194129751e-16         , 1.24065122069198193e-16         , 1.06528183355583238e-16         , 9.26276266055682747e-17         , 8.14443439099050386e-17         , },
+/* x = 34.7        */  {0.150445846854146595            , 0.00216780759155829602          , 0.0000937092618829111955        , 6.75138774371332674e-6          , 6.8097570900781247e-7           , 8.83109708965304105e-8          , 1.39974161240739593e-8          , 2.62199436256282035e-9          , 5.66713466676377032e-10         , 1.38820289371709948e-10         , 3.80055424634113814e-11         , 1.15002239283847242e-11         , 3.8113011419468229e-12          , 1.37293483352927125e-12         , 5.34126648466155269e-13         , 2.23181868930538255e-13         , 9.96799255779184141e-14         , 4.73859717915296789e-14         , 2.38855606767203287e-14         , 1.27221130158430002e-14         , 7.13705051698456858e-15         , 4.20414941581007728e-15         , 2.59261272537010626e-15         , 1.66882522914274975e-15         , 1.11792051917235288e-15         , 7.77046162828491964e-16         , 5.58764446183071202e-16         , 4.1445841366793696e-16          , 3.16197565022890261e-16         , 2.47437456299089282e-16         , 1.98093777845797102e-16         , 1.61853295525153812e-16         , 1.34663629379491952e-16         , 1.13862163840331818e-16         , 9.76608535757101309e-17         , 8.48342529910093706e-17         , 7.45263720924166658e-17         , },
+/* x = 34.8        */  {0.150229533518898948            , 0.00215847030917957153          , 0.0000930375133266946044        , 6.68372940564228324e-6          , 6.72214164349509684e-7          , 8.69242453789580237e-8          , 1.37380272758395052e-8          , 2.56601083068685154e-9          , 5.53019564514282658e-10         , 1.35076606704513004e-10         , 3.68743499608771111e-11         , 1.11258703889327471e-11         , 3.67664150627518744e-12         , 1.32062166017499353e-12         , 5.12299062011848976e-13         , 2.13446877724762698e-13         , 9.5058665240912458e-14          , 4.50598540840513588e-14         , 2.26483446011732904e-14         , 1.20290034704493563e-14         , 6.72932509550845334e-15         , 3.9530491410303167e-15          , 2.43119259143918209e-15         , 1.56082698153199209e-15         , 1.04294194586015924e-15         , 7.23190325388092791e-16         , 5.18859165153106145e-16         , 3.84043492140489669e-16         , 2.92417864476873378e-16         , 2.28415367457546521e-16         , 1.82563189365785921e-16         , 1.48940313953683857e-16         , 1.23751883318183022e-16         , 1.0450809936128379e-16          , 8.95392809923774313e-17         , 7.77026104646192252e-17         , 6.82008138340721309e-17         , },
+/* x = 34.9        */  {0.150014150564386391            , 0.00214919986481927929          , 0.0000923724870266066053        , 6.61694033140882813e-6          , 6.63590004572564094e-7          , 8.55631810953618005e-8          , 1.34841689305466567e-8          , 2.51137815759718294e-9          , 5.39694436491899374e-10         , 1.31444193746978818e-10         , 3.57799281428285058e-11         , 1.07647248449316731e-11         , 3.54710565344212956e-12         , 1.27044333113016333e-12         , 4.91422250964850592e-13         , 2.04162585312504708e-13         , 9.06639444343811942e-14         , 4.28540593576896967e-14         , 2.1478442039416917e-14          , 1.13754374253665809e-14         , 6.3459202925710326e-15          , 3.71756316371882172e-15         , 2.2802062016055982e-15          , 1.46006383817211087e-15         , 9.7315440152221534e-16          , 6.73176826744268933e-16         , 4.81879584471620852e-16         , 3.55913965747239614e-16         , 2.70464827338962731e-16         , 2.10883552872239191e-16         , 1.68270866069105046e-16         , 1.37073061065570597e-16         , 1.13736098557197242e-16         , 9.5931565019759894e-17          , 8.21001674568099253e-17         , 7.11760513851189789e-17         , 6.24165684886084152e-17         , },
+/* x = 35.0        */  {0.149799691340274055            , 0.00213999559057533463          , 0.0000917140967389339055        , 6.55100690991484308e-6          , 6.55100690982476998e-7          , 8.4227231688739733e-8           , 1.32357078277946484e-8          , 2.45806001615455361e-9          , 5.2672713731152326e-10          , 1.27919438625488849e-10         , 3.47209814767516016e-11         , 1.04162854357158231e-11         , 3.42248477871125596e-12         , 1.22230698508721977e-12         , 4.71452258366841703e-13         , 1.95306928299462781e-13         , 8.64840609372475931e-14         , 4.07620499893307982e-14         , 2.03720176850080463e-14         , 1.07590591809897573e-14         , 5.9853256626083691e-15          , 3.49668343558469191e-15         , 2.13895537220181505e-15         , 1.36603542961524255e-15         , 9.08187907370024296e-16         , 6.26724225501664165e-16         , 4.47606054636716764e-16         , 3.29894417424732708e-16         , 2.50195446890651429e-16         , 1.9472326852503475e-16          , 1.55116588099462162e-16         , 1.26165717115035613e-16         , 1.0454183574617921e-16          , 8.80672521069564243e-17         , 7.52856316450197355e-17         , 6.52028129641666116e-17         , 5.71269720634447212e-17         , },
+/* x = 35.1        */  {0.149586149262588317            , 0.00213085682710238954          , 0.0000910622575684700587        , 6.48591578122193423e-6          , 6.46743738860157109e-7          , 8.29158639483034676e-8          , 1.29925142857667747e-8          , 2.4060211559039532e-9           , 5.14107076467930784e-10         , 1.24498856544790119e-10         , 3.36962635874708732e-11         , 1.00800707240218144e-11         , 3.30257914732115049e-12         , 1.17612404804090877e-12         , 4.52347276161646297e-13         , 1.86858981454854358e-13         , 8.25079475006199208e-14         , 3.87776603556052809e-14         , 1.93254644143763272e-14         , 1.01776591563384251e-14         , 5.64612815584375943e-15         , 3.28946928536506369e-15         , 2.00679015261725175e-15         , 1.27827701297449663e-15         , 8.47699559157189114e-16         , 5.83572191477715113e-16         , 4.15835772199384688e-16         , 3.0582315341311571e-16          , 2.31478103714454393e-16         , 1.79825375423892233e-16         , 1.43008356026253221e-16         , 1.16139589182831636e-16         , 9.61009054352097919e-17         , 8.08553888364953109e-17         , 6.90427420951356151e-17         , 5.97355932706223903e-17         , 5.22894097613607416e-17         , },
+/* x = 35.2        */  {0.14937351781286783             , 0.00212178292347822889          , 0.000090416885943667194         , 6.42165383121903055e-6          , 6.38516716165014127e-7          , 8.16285574569447137e-8          , 1.2754462095314951e-8           , 2.35522736822265716e-9          , 5.01824005782962472e-10         , 1.21179084972884413e-10         , 3.27045752594531893e-11         , 9.7556188100741143e-12          , 3.1871976763125753e-12          , 1.13181002398458884e-12         , 4.34067534492678562e-13         , 1.7879889603676634e-13          , 7.87251357647788148e-14         , 3.68950747292382516e-14         , 1.83353891509092448e-14         , 9.62916447847037047e-15         , 5.32700561592352945e-15         , 3.09504276922637404e-15         , 1.88310539456542768e-15         , 1.19635686727437885e-15         , 7.91371498047838505e-16         , 5.43479887855342497e-16         , 3.86381462802478585e-16         , 2.83551111210275426e-16         , 2.1419164513120985e-16          , 1.66089552175440149e-16         , 1.31861708508849344e-16         , 1.06922513064088566e-16         , 8.83508384049659753e-17         , 7.42412670027672361e-17         , 6.33230907650203103e-17         , 5.47311642536708301e-17         , 4.78649625381058801e-17         , },
+/* x = 35.3        */  {0.149161790537327789            , 0.00211277323707262495          , 0.0000897778995923145576        , 6.35820818641792767e-6          , 6.30417242272781858e-7          , 8.03648042491209941e-8          , 1.25214284174679376e-8          , 2.30564545269105738e-9          , 4.89868007411775111e-10         , 1.17956879021326331e-10         , 3.17447625256467753e-11         , 9.44248648645955151e-12         , 3.07615753674265921e-12         , 1.08928429637434187e-12         , 4.16575196991066378e-13         , 1.71107841617605959e-13         , 7.5125722317391508e-14          , 3.5108806543002486e-14          , 1.73985996383447982e-14         , 9.11163019944494725e-15         , 5.02672072578482557e-15         , 2.91258435154721801e-15         , 1.76733757193464756e-15         , 1.11987388384015415e-15         , 7.38909036863215127e-16         , 5.06224479721717907e-16         , 3.59070168949905895e-16         , 2.62940855756384638e-16         , 1.98224540065961728e-16         , 1.5342357288690597e-16          , 1.21599097200895116e-16         , 9.84483058259255672e-17         , 8.12344012618846133e-17         , 6.81748094062074055e-17         , 5.80824035732526789e-17         , 5.01500185355549265e-17         , 4.38180846753561295e-17         , },
+/* x = 35.4        */  {0.148950961046037182            , 0.0021038271334185983           , 0.0000891452175177312465        , 6.29556620887335576e-6          , 6.22442986747045844e-7          , 7.91241084788244065e-8          , 1.22932936842432748e-8          , 2.25724318464008413e-9          , 4.78229482301647547e-10         , 1.14829107012477297e-10         , 3.0815714838876454e-11          , 9.14024843180494127e-12         , 2.96928377523867171e-12         , 1.04846993977897035e-12         , 3.99834261714922418e-13         , 1.63767951202218332e-13         , 7.17003367606366684e-14         , 3.34136789334084446e-14         , 1.65120920629040025e-14         , 8.62323109762367108e-15         , 4.74411536993829084e-15         , 2.74132889197426191e-15         , 1.65896183247459154e-15         , 1.04845533680317003e-15         , 6.90038929577073593e-16         , 4.71599758948932556e-16         , 3.33742134049482758e-16         , 2.43865656623310806e-16         , 1.83474103087428154e-16         , 1.41742644919367566e-16         , 1.12149314047323521e-16         , 9.06562647061377643e-17         , 7.46991534010522326e-17         , 6.26101745109634751e-17         , 5.32801846969261546e-17         , 4.59560470112390336e-17         , 4.01163096342625749e-17         , },
+/* x = 35.5        */  {0.148741023012108812            , 0.00209494398608603422          , 0.0000885187599754608484        , 6.23371549122425095e-6          , 6.14591668143483549e-7          , 7.79059860973088349e-8          , 1.20699415026475003e-8          , 2.20998928383088509e-9          , 4.66899139085050894e-10         , 1.11792746225650738e-10         , 2.99163633220098762e-11         , 8.84849644137386747e-12         , 2.86640895390050904e-12         , 1.00929354116690023e-12         , 3.83810467420330937e-13         , 1.5676226944403926e-13          , 6.84401116634141879e-14         , 3.18048064821106829e-14         , 1.56730394677614675e-14         , 8.16225402316006454e-15         , 4.47810538366806765e-15         , 2.58056191644480367e-15         , 1.55748926400446259e-15         , 9.81754819963254974e-16         , 6.44507772893848877e-16         , 4.39414876182941992e-16         , 3.10249774965075043e-16         , 2.26208639582243151e-16         , 1.69845781890333236e-16         , 1.30968801478018041e-16         , 1.03446966540751421e-16         , 8.34907083968468051e-17         , 6.86970417773469744e-17         , 5.75053951087019691e-17         , 4.88793916827227943e-17         , 4.2116244553495201e-17          , 3.67299816970203624e-17         , },
+/* x = 35.6        */  {0.148531970170901827            , 0.00208612317655760507          , 0.0000878984484504560279        , 6.17264385185300713e-6          , 6.06861052845856991e-7          , 7.67099645402623704e-8          , 1.18512585617535664e-8          , 2.16385338422421656e-9          , 4.55867983389481797e-10         , 1.08844878814452894e-10         , 2.90456790932929845e-11         , 8.56683869279505877e-12         , 2.76737280761435199e-12         , 9.71685030311998732e-13         , 3.68471204863475783e-13         , 1.50074703776633535e-13         , 6.53366542827408648e-14         , 3.02775780784544737e-14         , 1.48787809073232664e-14         , 7.72709075037178148e-15         , 4.22767566179788573e-15         , 2.42961615153403513e-15         , 1.46246435914990867e-15         , 9.19450337321009499e-16         , 6.02080529629177427e-16         , 4.09493171451400004e-16         , 2.8845673594847453e-16          , 2.09862006471617085e-16         , 1.57252502969788287e-16         , 1.21030344449268521e-16         , 9.54319968822588356e-17         , 7.69005570973002153e-17         , 6.31840302337064595e-17         , 5.28220480435520536e-17         , 4.48461386857861509e-17         , 3.86004413599611062e-17         , 3.36320111245396755e-17         , },
+/* x = 35.7        */  {0.148323796319236555            , 0.00207736409410695017          , 0.0000872842056347414204        , 6.11233933015957982e-6          , 5.99248953932828514e-7          , 7.55355824241226021e-8          , 1.16371345427485405e-8          , 2.11880600479871421e-9          , 4.45127307547309256e-10         , 1.05982687887975143e-10         , 2.82026716634271083e-11         , 8.29489904522600975e-12         , 2.67202191789028076e-12         , 9.3557751882947957e-13          , 3.53785432851033201e-13         , 1.43689978289184665e-13         , 6.2382019945833989e-14          , 2.88276408316574768e-14         , 1.4126811292378626e-14          , 7.31623130232256826e-15         , 3.99187560165829653e-15         , 2.28786830302258218e-15         , 1.37346266383463927e-15         , 8.61242535579565503e-16         , 5.62539164426635695e-16         , 3.81671095584416793e-16         , 2.68237017403746028e-16         , 1.94726317790206575e-16         , 1.45614070676240498e-16         , 1.11861333282463842e-16         , 8.80492413373610176e-17         , 7.08389480308295802e-17         , 5.81197604168693769e-17         , 4.85249523097859867e-17         , 4.11494253862446928e-17         , 3.53810576957015933e-17         , 3.07976507593420599e-17         , },
+/* x = 35.8        */  {0.148116495314621405            , 0.00206866613567906594          , 0.0000866759554055434987        , 6.05279018194740484e-6          , 5.91753230074700094e-7          , 7.43823892512429286e-8          , 1.1427462031848674e-8           , 2.07481852137884921e-9          , 4.34668680689603071e-10         , 1.03203453748828128e-10         , 2.73863874011253657e-11         , 8.03231637034182167e-12         , 2.5802094023841292e-12          , 9.00907147380516517e-13         , 3.39723598772565621e-13         , 1.37593590185002172e-13         , 5.95686869912963663e-14         , 2.74508849658454273e-14         , 1.34147718805355092e-14         , 6.92825771538500476e-15         , 3.76981485672859899e-15         , 2.15473606100035001e-15         , 1.2900885958766418e-15          , 8.06853067824041661e-16         , 5.25681383093330449e-16         , 3.55797215269911929e-16         , 2.49474173470921934e-16         , 1.80709832900996712e-16         , 1.34856615241722364e-16         , 1.03401116068864202e-16         , 8.12480263940710893e-17         , 6.52628834048999797e-17         , 5.34672415678938661e-17         , 4.45818930679553546e-17         , 3.77608893478423304e-17         , 3.24328799825924985e-17         , 2.82042921859856074e-17         , },
+/* x = 35.9        */  {0.147910061074491618            , 0.00206002870577286019          , 0.0000860736228038763818        , 5.99398487491818332e-6          , 5.84371784459205241e-7          , 7.32499451236281372e-8          , 1.12221364359827659e-8          , 2.03186313943494483e-9          , 4.24483939208596865e-10         , 1.00504550281326311e-10         , 2.65959080640429294e-11         , 7.7787439136209462e-12          , 2.49179461930869335e-12         , 8.6761294061002443e-13          , 3.26257563364249023e-13         , 1.31771768671944873e-13         , 5.68895331742717451e-14         , 2.61434296355625044e-14         , 1.27404413694583271e-14         , 6.56183821382142522e-15         , 3.56065937912891104e-15         , 2.02967531513517523e-15         , 1.21197342107566523e-15         , 7.5602307842374881e-16          , 4.91319467525576923e-16         , 3.31731295141692175e-16         , 2.32060572905940528e-16         , 1.6772790315369188e-16          , 1.24912085736396691e-16         , 9.55938992951927626e-17         , 7.4981798618894178e-17          , 6.01329080525455967e-17         , 4.91925667093398548e-17         , 4.09633693388206066e-17         , 3.46545797788469307e-17         , 2.97328563671402118e-17         , 2.58312797282337608e-17         , },
+/* x = 36.0        */  {0.147704487575459666            , 0.00205145121632582547          , 0.0000854771340135728397        , 5.93591208427267008e-6          , 5.77102563745510254e-7          , 7.21378204649672223e-8          , 1.10210559011484328e-8          , 1.98991286781912977e-9          , 4.14565177574092549e-10         , 9.78834414834345877e-11         , 2.58303493921246408e-11         , 7.53384868447686713e-12         , 2.406642885981735e-12           , 8.35636669406393757e-13         , 3.1336052946791121e-13          , 1.26211436142866677e-13         , 5.43378134464700364e-14         , 2.49016096034789839e-14         , 1.21017275533158345e-14         , 6.21572176652307664e-15         , 3.36362773071355044e-15         , 1.91217756494765571e-15         , 1.1387733751350672e-15          , 7.08511799972967601e-16         , 4.59279198829237782e-16         , 3.09343450827892977e-16         , 2.15896718183308124e-16         , 1.55702413620707967e-16         , 1.15717784251591406e-16         , 8.83883530460604613e-17         , 6.92077853707390316e-17         , 5.54128142304267221e-17         , 4.52646529651739799e-17         , 3.76423633293326632e-17         , 3.18067508339018264e-17         , 2.7259910062706515e-17          , 2.36597407142750781e-17         , },
+/* x = 36.1        */  {0.147499768852577068            , 0.00204293308660078751          , 0.0000848864163407500368        , 5.87856068841468566e-6          , 5.69943557045608317e-7          , 7.10455957507007722e-8          , 1.08241212333494375e-8          , 1.9489414934025427e-9           , 4.04904739489737335e-10         , 9.53376781363771444e-11         , 2.50888597605548596e-11         , 7.29731087385799408e-12         , 2.32462521079818538e-12         , 8.04922720094871956e-13         , 3.01006974563111683e-13         , 1.20900171512816614e-13         , 5.19071390275960625e-14         , 2.37219627258419773e-14         , 1.14966595055344861e-14         , 5.888732999998569e-15           , 3.17798764397596795e-15         , 1.80176751105450665e-15         , 1.07016792064355237e-15         , 6.64095253796129519e-16         , 4.29398861821866788e-16         , 2.88513367373852733e-16         , 2.00890618160487315e-16         , 1.44561269496212222e-16         , 1.07215937914298711e-16         , 8.17372487013257792e-17         , 6.38866837742232092e-17         , 5.10693712652120567e-17         , 4.16550039450007521e-17         , 3.45941295227942329e-17         , 2.91956727582812789e-17         , 2.49947689119404844e-17         , 2.16724305798956943e-17         , },
+/* x = 36.2        */  {0.147295898998607438            , 0.00203447374307468574          , 0.0000843013981936998249        , 5.82191976475565219e-6          , 5.6289279493231573e-7           , 6.99728612458692693e-8          , 1.06312358220256284e-8          , 1.90892355658047931e-9          , 3.95495209375700583e-10         , 9.28648946060834607e-11         , 2.43706188896287071e-11         , 7.06882329800739628e-12         , 2.24561803795169552e-12         , 7.75417970197859521e-13         , 2.89172586862912271e-13         , 1.15826175587805209e-13         , 4.95914576899807017e-14         , 2.26012181947790672e-14         , 1.09233802534517771e-14         , 5.57976744351321912e-15         , 3.00305281532675217e-15         , 1.69800081437897997e-15         , 1.00585812915659461e-15         , 6.22565046197349013e-16         , 4.01528324639733628e-16         , 2.69129577900390315e-16         , 1.86957210021563773e-16         , 1.34237923532930815e-16         , 9.93533056208909651e-17         , 7.55971264230952496e-17         , 5.89823755746399279e-17         , 4.7072077937767219e-17          , 3.83374923027713516e-17         , 3.1796001827644322e-17          , 2.68014593244955888e-17         , 2.29198097518163906e-17         , 1.98535915058049004e-17         , },
+/* x = 36.3        */  {0.147092872163310547            , 0.00202607261932934401          , 0.0000837220090631936667        , 5.76597858561703167e-6          , 5.55948348473104507e-7          , 6.8919216750497329e-8           , 1.0442305565890305e-8           , 1.86983432761349156e-9          , 3.86329404164847049e-10         , 9.04628057709080199e-11         , 2.36748366089913882e-11         , 6.8480908671396909e-12          , 2.16950300426632641e-12         , 7.47071670415710292e-13         , 2.77834204776123756e-13         , 1.10978238347520603e-13         , 4.73850351831342358e-14         , 2.15362854898875567e-14         , 1.03801399127888611e-14         , 5.28778708396135944e-15         , 2.8381799145578492e-15          , 1.6004620112848299e-15          , 9.45565179168795033e-16         , 5.83727253236950553e-16         , 3.75528187665888563e-16         , 2.51088797769082276e-16         , 1.74017826565151925e-16         , 1.24670941189530106e-16         , 9.20808166367904886e-17         , 6.99279899545990566e-17         , 5.44616656987352342e-17         , 4.33929356753399855e-17         , 3.52881607431577513e-17         , 2.92272172274392217e-17         , 2.46059101466289465e-17         , 2.10189162882125478e-17         , 1.81888234004121839e-17         , },
+/* x = 36.4        */  {0.14689068255273722             , 0.00201772915594419045          , 0.0000831481795031925258        , 5.71072661422812015e-6          , 5.49108328289029653e-7          , 6.78842713522772612e-8          , 1.02572388010929617e-8          , 1.83164978377371204e-9          , 3.77400365400046917e-10         , 8.81292040703095131e-11         , 2.30007516738134027e-11         , 6.63483007785462117e-12         , 2.09616670753284687e-12         , 7.19835332500771108e-13         , 2.66969759550216826e-13         , 1.06345708031473256e-13         , 4.52824377295417028e-14         , 2.05242439946406763e-14         , 9.86528925202457022e-15         , 5.01181620961365576e-15         , 2.6827657954656266e-15          , 1.50876257347604027e-15         , 8.89028961462016115e-16         , 5.47401387373018772e-16         , 3.51268996449133567e-16         , 2.34295309903469591e-16         , 1.61999705220357013e-16         , 1.15803600434669823e-16         , 8.53532384460423308e-17         , 6.46930264613936027e-17         , 5.02940425300448349e-17         , 4.00062407870573674e-17         , 3.2485039897660104e-17          , 2.68687545097932442e-17         , 2.25923665813350107e-17         , 1.92773493005104006e-17         , 1.66649661442483497e-17         , },
+/* x = 36.5        */  {0.146689324428534857            , 0.00200944280039088652          , 0.0000825798411119523135        , 5.6561535008167244e-6           , 5.42370883638032666e-7          , 6.68676431863233949e-8          , 1.00759462316283722e-8          , 1.79434658726688586e-9          , 3.6870135162078242e-10          , 8.58619566694127382e-11         , 2.23476306305845312e-11         , 6.42876852816580701e-12         , 2.02550048577592214e-12         , 6.9366262271543574e-13          , 2.56558220919801649e-13         , 1.01918461924698674e-13         , 4.32785155273207435e-14         , 1.95623332360320537e-14         , 9.377273658765442e-15           , 4.75093752332981835e-15         , 2.53624489367970275e-15         , 1.42253910232360545e-15         , 8.36006783954389313e-16         , 5.13419439817848005e-16         , 3.2863051370129098e-16          , 2.18660397261899224e-16         , 1.50835535467291038e-16         , 1.07583523404408361e-16         , 7.91288714520252761e-17         , 5.98583493359017269e-17         , 4.64514580763505097e-17         , 3.68883941289420057e-17         , 2.99079816284757765e-17         , 2.4703186775428915e-17          , 2.07455800371112689e-17         , 1.76816281002200394e-17         , 1.5269992107822029e-17          , },
 };
diff --git a/skel/simint/boys/boys_shortgrid.h b/skel/simint/boys/boys_shortgrid.h
index fa97c9e..7bde9c3 100644
--- a/skel/simint/boys/boys_shortgrid.h
+++ b/skel/simint/boys/boys_shortgrid.h
@@ -1,6 +1,6 @@
 #pragma once
 
-#define BOYS_SHORTGRID_MAXN 31
+#define BOYS_SHORTGRID_MAXN 36
 #define BOYS_SHORTGRID_MAXX 36.5
 #define BOYS_SHORTGRID_SPACE 0.1
 #define BOYS_SHORTGRID_NPOINT 366
-- 
2.43.0


From c79e701f6b0bbb916cda52980a7b09b82f245cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:02 +0000
Subject: [PATCH 14/17] fix: Boys function in the long range for n >= 4

The highest order was taken from the asymptotic formula, which neglects a term that
grows with n, and its relative error was then carried over to all lower orders by
the recursion (6e-9 for n=8, 1e-6 for n=12, 7e-2 for n=28 just above the switch).
Start from n=0, where the formula is exact to rounding, and recur up.
---
 skel/simint/boys/boys.h      | 16 +++++++++++++++-
 skel/simint/boys/boys_long.h | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/skel/simint/boys/boys.h b/skel/simint/boys/boys.h
index 971e15b..67d4348 100644
--- a/skel/simint/boys/boys.h
+++ b/skel/simint/boys/boys.h
@@ -46,10 +46,15 @@ void boys_F_split_large_n(SIMINT_DBLTYPE * restrict F,
                           int n)
 {
     // n is large - do only the highest, then recur down
+    // (in the long range, recur up from the lowest. The error of the long-range formula
+    // for the highest order would be carried over to all the lower orders)
 
     #ifndef SIMINT_BOYS_NOVECTOR
     if(vector_min(x) > BOYS_SHORTGRID_MAXX)
-        F[n] = boys_F_long_single_vec(x, n);
+    {
+        boys_F_long_recur_vec(F, x, n);
+        return;
+    }
     else if(vector_max(x) < BOYS_SHORTGRID_MAXX)
         F[n] = boys_F_taylor_single_vec(x, n);
     else
@@ -78,6 +83,15 @@ void boys_F_split_large_n(SIMINT_DBLTYPE * restrict F,
         //F[n2] = den * (x2 * F[(n2+1)] + ex);
         F[n2] = SIMINT_MUL(den, ( SIMINT_FMADD(x2, F[(n2+1)], ex)));
     }
+
+    // lanes in the long range
+    double * restrict Fl = (double *)F;
+    double const * restrict xl = (double *)(&x);
+    for(int i = 0; i < SIMINT_SIMD_LEN; i++)
+    {
+        if(!(xl[i] < BOYS_SHORTGRID_MAXX))
+            boys_F_long_recur(Fl + i, xl[i], n);
+    }
 }
 
 static inline
diff --git a/skel/simint/boys/boys_long.h b/skel/simint/boys/boys_long.h
index 7aff703..809018b 100644
--- a/skel/simint/boys/boys_long.h
+++ b/skel/simint/boys/boys_long.h
@@ -57,6 +57,39 @@ SIMINT_DBLTYPE boys_F_long_single_vec(SIMINT_DBLTYPE x, int n)
     return SIMINT_MUL(lfac, x2);
 }
 
+// The formula above neglects terms of order exp(-x), which is accurate for
+// small n only. For higher n, start from n=0 and recur up (stable for 2n < 2x)
+static inline
+void boys_F_long_recur(double * restrict F, double x, int n)
+{
+    const double x1 = 1.0/x;
+    const double x2 = 0.5*x1;
+    const double ex = exp(-x);
+
+    F[0] = boys_longfac[0] * sqrt(x1);
+
+    for(int i = 0; i < n; i++)
+        F[(i+1)*SIMINT_SIMD_LEN] = x2 * ((2*i+1) * F[i*SIMINT_SIMD_LEN] - ex);
+}
+
+static inline
+void boys_F_long_recur_vec(SIMINT_DBLTYPE * restrict F,
+                           SIMINT_DBLTYPE x,
+                           int n)
+{
+    const SIMINT_DBLTYPE x1 = SIMINT_DIV(SIMINT_DBLSET1(1.0), x);
+    const SIMINT_DBLTYPE x2 = SIMINT_MUL(SIMINT_DBLSET1(0.5), x1);
+    const SIMINT_DBLTYPE ex = SIMINT_EXP(SIMINT_NEG(x));
+
+    F[0] = SIMINT_MUL(SIMINT_DBLSET1(boys_longfac[0]), SIMINT_SQRT(x1));
+
+    for(int i = 0; i < n; i++)
+    {
+        const SIMINT_DBLTYPE fac = SIMINT_DBLSET1((double)(2*i+1));
+        F[i+1] = SIMINT_MUL(x2, SIMINT_FMSUB(fac, F[i], ex));
+    }
+}
+
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From f864817286ac4fc308f2120c217f4352fc2c2371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:32 +0000
Subject: [PATCH 15/17] fix: preprocess simint.f90 with gfortran

Without -cpp the #if around alpha2 and beta2 is ignored, so with
SIMINT_MAXDER=0 the Fortran shell pair has two members the C one has not
---
 skel/cmake/DefaultFlags.cmake | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skel/cmake/DefaultFlags.cmake b/skel/cmake/DefaultFlags.cmake
index efa49b9..ef11204 100644
--- a/skel/cmake/DefaultFlags.cmake
+++ b/skel/cmake/DefaultFlags.cmake
@@ -53,6 +53,8 @@ elseif("${CMAKE_C_COMPILER_ID}" MATCHES "GNU" OR
   list(APPEND SIMINT_C_FLAGS "-Wno-unused-parameter")
   list(APPEND SIMINT_C_FLAGS "-Wno-unused-variable")
 
+  list(APPEND SIMINT_Fortran_FLAGS "-cpp")
+
   list(APPEND SIMINT_TESTS_CXX_FLAGS "-std=c++11")
   list(APPEND SIMINT_TESTS_CXX_FLAGS "-Wall;-Wextra;-pedantic")
   list(APPEND SIMINT_TESTS_CXX_FLAGS "-Wno-unused-parameter")
-- 
2.43.0


From 511b1db8e9f9b953fab1329c9766cd062839307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:32 +0000
Subject: [PATCH 16/17] fix: simint_create_multi_shellpair2 (Fortran) takes
 2*npair shells

---
 skel/simint/simint.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skel/simint/simint.f90 b/skel/simint/simint.f90
index 9dd8c97..f0266d9 100644
--- a/skel/simint/simint.f90
+++ b/skel/simint/simint.f90
@@ -361,7 +361,7 @@ module SimintFortran
                npair, AB, P, screen_method)
       implicit none
       integer, intent(in) :: npair, screen_method
-      type(c_simint_shell), intent(in), target :: AB(npair)
+      type(c_simint_shell), intent(in), target :: AB(2*npair)
       type(c_simint_multi_shellpair), intent(inout), target :: P
 
       call c_simint_create_multi_shellpair2(INT(npair, C_INT), &
-- 
2.43.0


From 9fc77a2ccb127e348382a616bfb4ff7281617fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:32 +0000
Subject: [PATCH 17/17] fix: simint_copy_shell (Fortran) reads the destination,
 so it is not intent(out)

---
 skel/simint/simint.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skel/simint/simint.f90 b/skel/simint/simint.f90
index f0266d9..480db30 100644
--- a/skel/simint/simint.f90
+++ b/skel/simint/simint.f90
@@ -279,7 +279,7 @@ module SimintFortran
     subroutine simint_copy_shell(src, dest)
       implicit none
       type(c_simint_shell), intent(in), target :: src
-      type(c_simint_shell), intent(out), target :: dest
+      type(c_simint_shell), intent(inout), target :: dest
 
       call c_simint_copy_shell(C_LOC(src), C_LOC(dest))
     end subroutine
-- 
2.43.0

