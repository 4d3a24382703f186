From 21806255f498b5788255e42f43ffed27dcab4e11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 01/98] fix: dw_convect_v_grad_s() integrates each element with
 its own Jacobian

---
 sfepy/terms/extmods/terms_diffusion.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/terms/extmods/terms_diffusion.c b/sfepy/terms/extmods/terms_diffusion.c
index ea59c5a..98f3a81 100644
--- a/sfepy/terms/extmods/terms_diffusion.c
+++ b/sfepy/terms/extmods/terms_diffusion.c
@@ -653,6 +653,7 @@ int32 dw_convect_v_grad_s( FMField *out, FMField *val_v, FMField *grad_s,
 
   for (ii = 0; ii < out->nCell; ii++) {
     FMF_SetCell( out, ii );
+    FMF_SetCell( vvg->det, ii );
     FMF_SetCellX1( svg->bf, ii );
 
     if (isDiff == 0) {
-- 
2.43.0


From 761afb0d24332f3c26d77e8a08c7c55a29afff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 02/98] fix: dw_electric_source() uses the conductivity of each
 quadrature point

---
 sfepy/terms/extmods/terms_electric.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_electric.c b/sfepy/terms/extmods/terms_electric.c
index 36b7c7d..dbaa07c 100644
--- a/sfepy/terms/extmods/terms_electric.c
+++ b/sfepy/terms/extmods/terms_electric.c
@@ -26,8 +26,8 @@ int32 dw_electric_source( FMField *out, FMField *grad, FMField *coef,
 
     fmf_mulATB_nn( gp2, grad, grad );
     fmf_mulATB_nn( bftgp2, vg->bf, gp2 );
+    fmf_mul( bftgp2, coef->val );
     fmf_sumLevelsMulF( out, bftgp2, vg->det->val );
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
-- 
2.43.0


From cea9ec4e4aab4e9dcc2425f8bff4aa01d7113e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 03/98] fix: divgrad_build_gtg() supports different numbers of
 test and trial basis functions

---
 sfepy/terms/extmods/terms_navier_stokes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/extmods/terms_navier_stokes.c b/sfepy/terms/extmods/terms_navier_stokes.c
index 00beb80..68b7cb2 100644
--- a/sfepy/terms/extmods/terms_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_navier_stokes.c
@@ -48,8 +48,8 @@ int32 divgrad_build_gtg( FMField *out, FMField *gcv, FMField *gcs )
       pg3s = pg2s + nEPs;
 
       pout1 = FMF_PtrLevel( out, iqp );
-      pout2 = pout1 + (nCol + 1) * nEPv;
-      pout3 = pout2 + (nCol + 1) * nEPv;
+      pout2 = pout1 + nCol * nEPv + nEPs;
+      pout3 = pout2 + nCol * nEPv + nEPs;
 
       for (ir = 0; ir < nEPv; ir++) {
         for (ic = 0; ic < nEPs; ic++) {
@@ -72,7 +72,7 @@ int32 divgrad_build_gtg( FMField *out, FMField *gcv, FMField *gcs )
       pg2s = pg1s + nEPs;
 
       pout1 = FMF_PtrLevel( out, iqp );
-      pout2 = pout1 + (nCol + 1) * nEPv;
+      pout2 = pout1 + nCol * nEPv + nEPs;
 
       for (ir = 0; ir < nEPv; ir++) {
         for (ic = 0; ic < nEPs; ic++) {
-- 
2.43.0


From 8bb2f3fe7069cc70e360ceec2c92860619f0f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 04/98] fix: d_of_nsSurfMinDPress() evaluates p - bpress in
 each element separately

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 88e2813..094e581 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -472,7 +472,7 @@ int32 d_of_nsSurfMinDPress( FMField *out, FMField *pressure,
       FMF_SetCell( sg->det, ii );
 
       for (iqp = 0; iqp < nQP; iqp++) {
-	pressQP->val[iqp] -= pressure->val[iqp] - bpress;
+	pressQP->val[iqp] = pressure->val[iqp] - bpress;
       }
       fmf_sumLevelsMulF( out1, pressQP, sg->det->val );
       aux += out1->val[0];
-- 
2.43.0


From 282ac688530c42e3dbaf80b2285dbb2035f6a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 05/98] fix: adjoint SUPG terms use the material parameter in
 each quadrature point

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index 094e581..d4adbab 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -220,6 +220,7 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
 
     if (isDiff == 1) {
       fmf_addAB_nn( outdqp, fTgUfUTgT, fTgUfUTg );
+      fmf_mul( outdqp, coef->val );
       fmf_sumLevelsMulF( out, outdqp, vg->det->val );
     } else {
       ele_extractNodalValuesDBD( stW, stateW, conn + nEP * ii );
@@ -231,10 +232,9 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
       fmf_mulAB_n1( out2qp, fTgUfUTg, stWv );
 
       fmf_addAB_nn( outqp, out1qp, out2qp );
+      fmf_mul( outqp, coef->val );
       fmf_sumLevelsMulF( out, outqp, vg->det->val );
-
     }
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
@@ -304,15 +304,16 @@ int32 dw_st_adj1_supg_p( FMField *out, FMField *stateW, FMField *gradP,
     bf_actt( fTgPTgT, vg_w->bf, gPTgT );
 
     if (isDiff == 1) {
+      fmf_mul( fTgPTgT, coef->val );
       fmf_sumLevelsMulF( out, fTgPTgT, vg_w->det->val );
     } else {
       ele_extractNodalValuesDBD( stW, stateW, conn_w + nEP_w * ii );
 
       // (grad p, v grad w).
       fmf_mulAB_n1( outqp, fTgPTgT, stWv );
+      fmf_mul( outqp, coef->val );
       fmf_sumLevelsMulF( out, outqp, vg_w->det->val );
     }
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
@@ -377,15 +378,16 @@ int32 dw_st_adj2_supg_p( FMField *out, FMField *gradU, FMField *stateR,
     bf_actt( fTgUTg, vg_u->bf, gUTg );
 
     if (isDiff == 1) {
+      fmf_mul( fTgUTg, coef->val );
       fmf_sumLevelsMulF( out, fTgUTg, vg_u->det->val );
     } else {
       ele_extractNodalValuesDBD( stR, stateR, conn_r + nEP_r * ii );
 
       // (v grad u, grad r).
       fmf_mulAB_n1( outqp, fTgUTg, stRv );
+      fmf_mul( outqp, coef->val );
       fmf_sumLevelsMulF( out, outqp, vg_u->det->val );
     }
-    fmf_mulC( out, coef->val[0] );
 
     ERR_CheckGo( ret );
   }
-- 
2.43.0


From dddd10cb38c9cd1e18351533be99f9c9385b91ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 06/98] fix: dw_st_adj_supg_c term passes the state and
 parameter variables in the order of its arguments

---
 sfepy/terms/terms_adj_navier_stokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index 44b0623..fdfa765 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -133,7 +133,7 @@ class SUPGCAdjStabilizationTerm(Term):
 
     function = staticmethod(terms.dw_st_adj_supg_c)
 
-    def get_fargs(self, mat, virtual, state, parameter,
+    def get_fargs(self, mat, virtual, parameter, state,
                   mode=None, term_mode=None, diff_var=None, **kwargs):
         vg, _ = self.get_mapping(state)
 
-- 
2.43.0


From 5759486af2f1005ca85bccea6c886d16c1f6f6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 07/98] fix: dw_st_adj_supg_c() contracts the velocity gradient
 with the test function along the derivative index

---
 sfepy/terms/extmods/terms_adj_navier_stokes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/extmods/terms_adj_navier_stokes.c b/sfepy/terms/extmods/terms_adj_navier_stokes.c
index d4adbab..fbc030d 100644
--- a/sfepy/terms/extmods/terms_adj_navier_stokes.c
+++ b/sfepy/terms/extmods/terms_adj_navier_stokes.c
@@ -214,7 +214,7 @@ int32 dw_st_adj_supg_c( FMField *out, FMField *stateW,
     // u grad.
     convect_build_vtg( fUTg, vg->bfGM, stateU );
     // (grad u, u^T grad).
-    fmf_mulAB_nn( gUfUTg, gradU, fUTg );
+    fmf_mulATB_nn( gUfUTg, gradU, fUTg );
     // (v grad u, u grad).
     bf_actt( fTgUfUTg, vg->bf, gUfUTg );
 
-- 
2.43.0


From ccaaac30a5dc8094f69c32c172a80621519a5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 08/98] fix: dq_ul_he_tan_mod_mooney_rivlin() returns the
 derivative of the Mooney-Rivlin stress, not twice it

---
 sfepy/terms/extmods/terms_hyperelastic.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/extmods/terms_hyperelastic.c b/sfepy/terms/extmods/terms_hyperelastic.c
index e69edc0..fd2183e 100644
--- a/sfepy/terms/extmods/terms_hyperelastic.c
+++ b/sfepy/terms/extmods/terms_hyperelastic.c
@@ -1307,12 +1307,12 @@ int32 dq_ul_he_tan_mod_mooney_rivlin( FMField *out, FMField *mat,
     for (iqp = 0; iqp < nQP; iqp++) {
       detF23 = exp( -2.0/3.0 * log( pdetF[iqp] ) );
       detF43 = detF23 * detF23;
-      F1 = 16.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F2 = -8.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
-      F3 = 4.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
-      F4 = 4.0 * pkappa[iqp] * detF43;
-      F5 = -2.0 * pkappa[iqp] * detF43;
-      F6 = 8.0/3.0 * pkappa[iqp] * detF43;
+      F1 = 8.0/9.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F2 = -4.0/3.0 * pkappa[iqp] * detF43 * ptrB[iqp];
+      F3 = 2.0/3.0 * pkappa[iqp] * detF43 * pin2B[iqp];
+      F4 = 2.0 * pkappa[iqp] * detF43;
+      F5 = -pkappa[iqp] * detF43;
+      F6 = 4.0/3.0 * pkappa[iqp] * detF43;
       for (ir = 0; ir < sym; ir++) {
         for (ic = 0; ic < sym; ic++) {
           pd[sym*ir+ic]
-- 
2.43.0


From 289e2b314ee05781c8e6ada4bbf48066ba772a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:13 +0000
Subject: [PATCH 09/98] fix: geme_mulT2S_AA() uses the (11, 22, 33, 12, 13, 23)
 storage of symmetric 3D tensors

---
 sfepy/discrete/common/extmods/geommech.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/common/extmods/geommech.c b/sfepy/discrete/common/extmods/geommech.c
index 8f8c2b1..723fad6 100644
--- a/sfepy/discrete/common/extmods/geommech.c
+++ b/sfepy/discrete/common/extmods/geommech.c
@@ -595,12 +595,12 @@ int32 geme_mulT2S_AA( FMField *R, FMField *A )
       pr[2] = pa[2]*pa[0] + pa[1]*pa[2];
       break;
     case 6:
-      pr[0] = pa[0]*pa[0] + pa[5]*pa[5] + pa[4]*pa[4];
-      pr[1] = pa[5]*pa[5] + pa[1]*pa[1] + pa[3]*pa[3];
-      pr[2] = pa[4]*pa[4] + pa[3]*pa[3] + pa[2]*pa[2];
-      pr[3] = pa[4]*pa[5] + pa[1]*pa[3] + pa[2]*pa[3];
-      pr[4] = pa[0]*pa[4] + pa[5]*pa[3] + pa[4]*pa[2];
-      pr[5] = pa[0]*pa[5] + pa[5]*pa[1] + pa[4]*pa[3];
+      pr[0] = pa[0]*pa[0] + pa[3]*pa[3] + pa[4]*pa[4];
+      pr[1] = pa[3]*pa[3] + pa[1]*pa[1] + pa[5]*pa[5];
+      pr[2] = pa[4]*pa[4] + pa[5]*pa[5] + pa[2]*pa[2];
+      pr[3] = pa[0]*pa[3] + pa[3]*pa[1] + pa[4]*pa[5];
+      pr[4] = pa[0]*pa[4] + pa[3]*pa[5] + pa[4]*pa[2];
+      pr[5] = pa[3]*pa[4] + pa[1]*pa[5] + pa[5]*pa[2];
       break;
     default:
       errput( ErrHead "ERR_Switch\n" );
-- 
2.43.0


From 72718da9318125a620b870bd107bd2935c1a9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 10/98] fix: plane condensation of the dielectric tensor in
 TransformToPlane

---
 sfepy/mechanics/matcoefs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/matcoefs.py b/sfepy/mechanics/matcoefs.py
index 115b40d..f16095e 100644
--- a/sfepy/mechanics/matcoefs.py
+++ b/sfepy/mechanics/matcoefs.py
@@ -447,7 +447,7 @@ class TransformToPlane(Struct):
             c2 = c3[tuple(mg(self.i_ms, self.i_ms))] \
                  - nm.dot(Feps.T, nm.dot(Ainv, Feps))
             d2 = d3[tuple(mg(self.i_m, self.i_m))] \
-                 - nm.dot(FE.T, nm.dot(Ainv, FE))
+                 + nm.dot(FE.T, nm.dot(Ainv, FE))
             b2 = b3[tuple(mg(self.i_m, self.i_ms))].T \
                  - nm.dot(FE.T, nm.dot(Ainv, Feps))
 
-- 
2.43.0


From 2f3f58005a9d319c73617287400ed3234d836c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 11/98] fix: full_order quadratures of high order on tensor
 product geometries

---
 sfepy/discrete/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index 14de4f2..e7ec96d 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -152,9 +152,9 @@ class QuadraturePoints(Struct):
             qp.order = order
 
         else:
+            order1d = order
+            dim = int(geometry[0])
             if not full_order:
-                order1d = order
-                dim = int(geometry[0])
                 order = dim * order1d
 
             if order <= max_orders[geometry]:
-- 
2.43.0


From 68a65d1f9caf6c98b88a2a081388ff49c0c02a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 12/98] fix: symmetric custom quadratures given by coordinates
 and weights

---
 sfepy/discrete/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index e7ec96d..bad616a 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -211,7 +211,7 @@ class QuadraturePoints(Struct):
         self.volume = nm.prod(bbox.sum(axis=1)) * tp_fix
 
         if symmetric:
-            isym = 0 if data[0, 0] == 0 else None
+            isym = 0 if self.coors[0, 0] == 0 else None
 
         if bounds is not None:
             # Transform from given bounds to self.bounds.
-- 
2.43.0


From 8bb9fd04c870b9f172fda9c01ec3c7856f128519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 13/98] fix: number of points of symmetric quadratures

---
 sfepy/discrete/quadratures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/discrete/quadratures.py b/sfepy/discrete/quadratures.py
index bad616a..a400ada 100644
--- a/sfepy/discrete/quadratures.py
+++ b/sfepy/discrete/quadratures.py
@@ -235,6 +235,7 @@ class QuadraturePoints(Struct):
 
             self.coors = nm.r_[2 * origin - self.coors[:isym:-1], self.coors]
             self.weights = nm.r_[self.weights[:isym:-1], self.weights]
+            self.n_point = self.coors.shape[0]
 
 _QP = QuadraturePoints
 quadrature_tables = {
-- 
2.43.0


From 105f17355b19e347699d7535311b95d1dabbebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 14/98] fix: node_coors of the wedge polynomial space keep
 fractional coordinates

---
 sfepy/discrete/fem/poly_spaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index f3b7a52..2e58273 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -715,7 +715,7 @@ class LagrangeWedgePolySpace(FEPolySpace):
         self.nts = nm.vstack([ps2.nts, ps1.nts])
         self.nts[ps2.n_nod:, 1] += ps2.n_nod
 
-        self.node_coors = nm.empty((n_nod, 3), nm.int32)
+        self.node_coors = nm.empty((n_nod, 3), nm.float64)
         self.node_coors[:, :2] = nm.tile(ps2.node_coors, (ps1.n_nod, 1))
         self.node_coors[:, 2] = nm.repeat(ps1.node_coors, ps2.n_nod,
                                           axis=0)[:, 0]
-- 
2.43.0


From 81976583121291745060eff8be5b9978ebf09233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 15/98] fix: eval_lobatto1d() evaluates all the points

---
 sfepy/discrete/fem/extmods/lobatto.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/extmods/lobatto.c b/sfepy/discrete/fem/extmods/lobatto.c
index 32849e9..8fb70fe 100644
--- a/sfepy/discrete/fem/extmods/lobatto.c
+++ b/sfepy/discrete/fem/extmods/lobatto.c
@@ -8,7 +8,7 @@ int32 eval_lobatto1d(FMField *out, FMField *coors, int32 order)
   int32 ret = RET_OK;
   int32 ii;
   fun eval_fun;
-  int32 n_coor = coors->nRow;
+  int32 n_coor = coors->nRow * coors->nCol;
 
   if ((order < 0) || (order > max_order)) {
     errput("order must be in [0, %d]! (was %d)", max_order, order);
-- 
2.43.0


From 25446a802ddaef1ef179bb480974bb8fe171f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:32 +0000
Subject: [PATCH 16/98] fix: an error in CLagrangeContext.evaluate() is raised
 and does not spoil subsequent evaluations

---
 sfepy/discrete/fem/extmods/bases.pyx | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/extmods/bases.pyx b/sfepy/discrete/fem/extmods/bases.pyx
index 2b157e2..cae562e 100644
--- a/sfepy/discrete/fem/extmods/bases.pyx
+++ b/sfepy/discrete/fem/extmods/bases.pyx
@@ -16,6 +16,7 @@ from sfepy.discrete.common.extmods.types cimport int32, float64, complex128
 cdef extern from 'common.h':
     void *pyalloc(size_t size)
     void pyfree(void *pp)
+    void errclear()
 
 cdef extern from 'lagrange.h':
     ctypedef struct LagrangeContext:
@@ -23,7 +24,7 @@ cdef extern from 'lagrange.h':
                              FMField *point, FMField *e_coors,
                              void *_ctx)
         int32 (*eval_basis)(FMField *out, FMField *coors, int32 diff,
-                            void *_ctx)
+                            void *_ctx) except *
         int32 iel # >= 0.
         int32 is_dx # 1 => apply reference mapping to gradient.
         FMField e_coors_max[1] # Buffer for coordinates of element nodes.
@@ -67,7 +68,7 @@ cdef extern from 'lagrange.h':
 
     int32 _eval_basis_lagrange \
           'eval_basis_lagrange'(FMField *out, FMField *coors, int32 diff,
-                                void *_ctx)
+                                void *_ctx) except *
 
 cdef class CLagrangeContext:
 
@@ -235,6 +236,12 @@ cdef class CLagrangeContext:
         _f.array2fmfield3(_out, out)
         _f.array2fmfield2(_coors, coors)
 
-        self.ctx.eval_basis(_out, _coors, diff, ctx)
+        try:
+            self.ctx.eval_basis(_out, _coors, diff, ctx)
+
+        except:
+            # Reset the error flag, it would spoil the subsequent evaluations.
+            errclear()
+            raise
 
         return out
-- 
2.43.0


From 8b0f00eb59eca56f7418c624a7836915aa1c5d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 17/98] fix: mesh_init() does not clear beyond the end of
 topology->num

---
 sfepy/discrete/common/extmods/mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index a95183b..245d2b5 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -25,7 +25,7 @@ int32 mesh_init(Mesh *mesh)
   topology->cell_types = 0;
   topology->edge_oris = 0;
   topology->face_oris = 0;
-  memset(topology->num, 0, 16 * sizeof(int32));
+  memset(topology->num, 0, 4 * sizeof(uint32));
   memset(topology->_conn, 0, 16 * sizeof(MeshConnectivity));
   for (ii = 0; ii < 16; ii++) {
     topology->conn[ii] = &topology->_conn[ii];
-- 
2.43.0


From 9d9de138a9388c18338f54d17c372c6ca1687098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 18/98] fix: transform_coors_to_lower_dim() supports 3D
 elements not parallel to the XY plane

---
 sfepy/discrete/fem/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index d970967..f0ed2c6 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -40,7 +40,7 @@ def transform_coors_to_lower_dim(coors, to_dim):
             R0 = nm.array([
                 [u1**2 * cphi1, u1 * u2 * cphi1, u2 * sphi],
                 [u1 * u2 * cphi1, u2**2 * cphi1, -u1 * sphi],
-                [-u2 * sphi, u1 * sphi, 0]
+                [-u2 * sphi, u1 * sphi, 0 * sphi]
             ]).transpose(2, 0, 1)
             mtxR[idxs, ...] += R0
 
-- 
2.43.0


From ccf5b2ad33eac4b5f6d569eb11f75f54a906254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:02 +0000
Subject: [PATCH 19/98] fix: transform_coors_to_lower_dim() keeps the
 orientation of elements parallel to the XY plane

---
 sfepy/discrete/fem/mappings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/fem/mappings.py b/sfepy/discrete/fem/mappings.py
index f0ed2c6..e96fcce 100644
--- a/sfepy/discrete/fem/mappings.py
+++ b/sfepy/discrete/fem/mappings.py
@@ -29,6 +29,8 @@ def transform_coors_to_lower_dim(coors, to_dim):
         sphi = ab / b
 
         mtxR = nm.eye(3, 3) * cphi[:, None, None]
+        # Elements parallel to XY plane are rotated around X axis if needed.
+        mtxR[nm.abs(ab) <= 1e-16, 0, 0] = 1.0
         idxs = nm.where(nm.abs(ab) > 1e-16)[0]
 
         if len(idxs) > 0:
-- 
2.43.0


From b0e3b30233500d071bf3788cefd333f26d24dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 20/98] fix: Jacobians and normals of quadrilateral facets of
 3D cells are evaluated in their quadrature points

---
 sfepy/discrete/fem/fields_base.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/fields_base.py b/sfepy/discrete/fem/fields_base.py
index 983556b..1bf77d0 100644
--- a/sfepy/discrete/fem/fields_base.py
+++ b/sfepy/discrete/fem/fields_base.py
@@ -779,6 +779,14 @@ class FEField(Field):
             self.qp_coors[bqpkey] = Struct(name='BQP_%s' % sd.bkey,
                                            vals=vals, weights=qp.weights)
 
+    def _get_facet_gradient_points(self, qp, sgeom_poly_space, indx):
+        """
+        Get the facet quadrature points in the reference cell for the facet
+        vertices given by `indx`.
+        """
+        bf_s = sgeom_poly_space.eval_basis(qp.vals)
+        return _interp_to_faces(self.gel.coors, bf_s, indx[None, :])[0]
+
     def create_bqp_key(self, integral, bkey):
         gel = self.gel
         sd_bkey, face_type = f'b{bkey}', f's{bkey}'
@@ -1306,6 +1314,7 @@ class FEField(Field):
                         weights=nm.zeros((nfc, nqp), dtype=nm.float64)
                     )
 
+                    gvals = nm.zeros((len(bkeys), nqp, dim), dtype=nm.float64)
                     efc_map = nm.count_nonzero(
                         nm.diff(nm.sort(self.gel.faces)), axis=1) + 1
                     indxs = {}
@@ -1326,6 +1335,10 @@ class FEField(Field):
                         indx = self.efaces[ffcidx]
                         indx = nm.roll(indx[:bkey], -1)[::-1]
                         indxs[ikey] = indx
+                        # The points corresponding to the fixed orientation.
+                        gvals[ikey, :nqp0] = self._get_facet_gradient_points(
+                            self.get_qp(f's{bkey}', integral),
+                            self.sgeom_poly_space[bkey], indx)
 
                         fcco = ps.geometry.coors[indx]
                         fcax = [nm.where((fcco[1] - fcco[0]) == 1)[0][0],
@@ -1343,7 +1356,7 @@ class FEField(Field):
                     mapping.set_basis_indices(indxs)
                     weights = nm.ascontiguousarray(qp.weights[ffcidxs][fc_map])
                     bf = nm.ascontiguousarray(bf[ffcidxs][fc_map])
-                    out = mapping.get_mapping(qp.vals[ffcidxs], weights, bf,
+                    out = mapping.get_mapping(gvals, weights, bf,
                                               extra=(None, None, None),
                                               is_face=True,
                                               fc_bf_map=(fc_map, fcaxes))
@@ -1358,6 +1371,10 @@ class FEField(Field):
                     # Fix geometry element's 1st facet orientation for gradients.
                     indx = nm.roll(indx, -1)[::-1]
                     mapping.set_basis_indices(indx)
+                    # The points corresponding to the fixed orientation.
+                    gvals = self._get_facet_gradient_points(
+                        self.get_qp(sd.face_type, integral),
+                        self.sgeom_poly_space, indx)
 
                     if integration == 'facet_extra':
                         se_bf_bg = geo_ps.eval_basis(qp.vals, diff=True)
@@ -1369,7 +1386,7 @@ class FEField(Field):
                     else:
                         se_bf_bg, se_ebf_bg, se_conn = None, None, None
 
-                    out = mapping.get_mapping(qp.vals[0], qp.weights, bf,
+                    out = mapping.get_mapping(gvals, qp.weights, bf,
                         extra=(se_conn, se_bf_bg, se_ebf_bg), is_face=True)
 
             else:
-- 
2.43.0


From 9495004a3431421cf564f8d02bf93393c8de7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 21/98] fix: do not modify the variable evaluate cache in
 ev_integrate

val_qp *= material scaled the cached quadrature point values in place, so
the second evaluation with the same state was scaled by the material again.
---
 sfepy/terms/terms_basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_basic.py b/sfepy/terms/terms_basic.py
index f4c7f0b..c17370a 100644
--- a/sfepy/terms/terms_basic.py
+++ b/sfepy/terms/terms_basic.py
@@ -85,7 +85,8 @@ class IntegrateTerm(Term):
 
         val_qp = self.get(parameter, 'val')
         if material is not None:
-            val_qp *= material
+            # Do not modify the evaluate cache of the variable.
+            val_qp = val_qp * material
 
         fmode = {'eval' : 0, 'el_avg' : 1, 'qp' : 2}.get(mode, 1)
         if term_mode == 'flux':
-- 
2.43.0


From 0eb0b4ba6c9cfa18426f0c8e7f0ac012f1285445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 22/98] fix: eval mode of dw_v_dot_grad_s with a matrix
 material

The term evaluated v . (c^T grad p) instead of v . (c grad p).
---
 sfepy/terms/terms_dot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_dot.py b/sfepy/terms/terms_dot.py
index 1d23b3e..3e6716d 100644
--- a/sfepy/terms/terms_dot.py
+++ b/sfepy/terms/terms_dot.py
@@ -342,7 +342,7 @@ class VectorDotGradScalarTerm(Term):
             grad = self.get(svar, 'grad')
             val = self.get(vvar, 'val')
 
-            return coef, grad, val, vvg
+            return coef, val, grad, vvg
 
         else:
             raise ValueError('unsupported evaluation mode in %s! (%s)'
-- 
2.43.0


From 8fd2f810143b3f414eb721bb95ce89a68a71400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:02 +0000
Subject: [PATCH 23/98] fix: order of vector DOFs in dw_vm_dot_s

actBfT() ordered the rows node by node, while the element DOFs are ordered
by components, so the weak form was assembled into wrong rows and columns.
---
 sfepy/terms/extmods/terms_op.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/extmods/terms_op.c b/sfepy/terms/extmods/terms_op.c
index 64252d2..3e0b568 100644
--- a/sfepy/terms/extmods/terms_op.c
+++ b/sfepy/terms/extmods/terms_op.c
@@ -73,15 +73,16 @@ int32 actBfT(FMField *out, FMField *bf, FMField *A)
     for (iqp = 0; iqp < bf->nLev; iqp++) {
       pbf = FMF_PtrLevel(bf, iqp);
       pout = FMF_PtrLevel(out, iqp);
-      for (ii = 0; ii < nEP; ii++) {
-        pA = FMF_PtrLevel(A, iqp);
-        for (ir = 0; ir < dim; ir++) {
+      pA = FMF_PtrLevel(A, iqp);
+      /* Rows are ordered by components, as all the element DOFs. */
+      for (ir = 0; ir < dim; ir++) {
+        for (ii = 0; ii < nEP; ii++) {
           for (ic = 0; ic < A->nCol; ic++) {
             pout[ic] = pbf[ii] * pA[ic];
           }
           pout += out->nCol;
-          pA += A->nCol;
         }
+        pA += A->nCol;
       }
     } // for (iqp)
   } // for (iel)
-- 
2.43.0


From 8db4494be679c5e8c709051edc7d61eef50b531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 24/98] fix: different approximations of the variables of
 dw_piezo_coupling

The gradients of the vector variable basis were used also for the scalar
variable: with different approximation orders, the results were wrong and
memory was read out of bounds.
---
 sfepy/terms/extmods/terms.pyx     | 5 +++--
 sfepy/terms/extmods/terms_piezo.c | 7 ++++---
 sfepy/terms/extmods/terms_piezo.h | 2 +-
 sfepy/terms/terms_piezo.py        | 4 +++-
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/extmods/terms.pyx b/sfepy/terms/extmods/terms.pyx
index fe913ab..49e47a2 100644
--- a/sfepy/terms/extmods/terms.pyx
+++ b/sfepy/terms/extmods/terms.pyx
@@ -383,7 +383,7 @@ cdef extern from 'terms.h':
     cdef int32 _dw_piezo_coupling \
          'dw_piezo_coupling'(FMField *out, FMField *strain,
                              FMField *charge_grad,
-                             FMField *mtxG, Mapping *vg,
+                             FMField *mtxG, Mapping *vg, Mapping *svg,
                              int32 mode)
 
     cdef int32 _d_piezo_coupling \
@@ -1800,6 +1800,7 @@ def dw_piezo_coupling(np.ndarray out not None,
                       np.ndarray charge_grad not None,
                       np.ndarray mtx_g not None,
                       CMapping cmap not None,
+                      CMapping scmap not None,
                       int32 mode):
     cdef int32 ret
     cdef FMField[1] _out, _strain, _charge_grad, _mtx_g
@@ -1810,7 +1811,7 @@ def dw_piezo_coupling(np.ndarray out not None,
     array2fmfield4(_mtx_g, mtx_g)
 
     ret = _dw_piezo_coupling(_out, _strain, _charge_grad, _mtx_g,
-                             cmap.geo, mode)
+                             cmap.geo, scmap.geo, mode)
     return ret
 
 def d_piezo_coupling(np.ndarray out not None,
diff --git a/sfepy/terms/extmods/terms_piezo.c b/sfepy/terms/extmods/terms_piezo.c
index 78b1052..08f872a 100644
--- a/sfepy/terms/extmods/terms_piezo.c
+++ b/sfepy/terms/extmods/terms_piezo.c
@@ -5,7 +5,7 @@
 #undef __FUNC__
 #define __FUNC__ "dw_piezo_coupling"
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode )
 {
   int32 ii, nEPU, nEPP, dim, sym, nQP, ret = RET_OK;
@@ -37,6 +37,7 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
     FMF_SetCell( out, ii );
     FMF_SetCellX1( mtxG, ii );
     FMF_SetCell( vg->bfGM, ii );
+    FMF_SetCell( svg->bfGM, ii );
     FMF_SetCell( vg->det, ii );
 
     if (mode == 0) { // vector - grad
@@ -50,12 +51,12 @@ int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
       FMF_SetCell( strain, ii );
 
       fmf_mulAB_nn( ge, mtxG, strain );
-      fmf_mulATB_nn( gctge, vg->bfGM, ge );
+      fmf_mulATB_nn( gctge, svg->bfGM, ge );
       fmf_sumLevelsMulF( out, gctge, vg->det->val );
 
     } else { // matrix - div, grad
       form_sdcc_actOpG_RM3( gg, mtxG, vg->bfGM );
-      fmf_mulATB_nn( gctgg, vg->bfGM, gg );
+      fmf_mulATB_nn( gctgg, svg->bfGM, gg );
       if (mode == 1) { // matrix - grad
 	fmf_sumLevelsTMulF( out, gctgg, vg->det->val );
       } else { // matrix - div
diff --git a/sfepy/terms/extmods/terms_piezo.h b/sfepy/terms/extmods/terms_piezo.h
index 8cc8596..86f1b4c 100644
--- a/sfepy/terms/extmods/terms_piezo.h
+++ b/sfepy/terms/extmods/terms_piezo.h
@@ -12,7 +12,7 @@ BEGIN_C_DECLS
 #include "refmaps.h"
 
 int32 dw_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
-			 FMField *mtxG, Mapping *vg,
+			 FMField *mtxG, Mapping *vg, Mapping *svg,
 			 int32 mode );
 
 int32 d_piezo_coupling( FMField *out, FMField *strain, FMField *charge_grad,
diff --git a/sfepy/terms/terms_piezo.py b/sfepy/terms/terms_piezo.py
index 0adf5d8..d4296ad 100644
--- a/sfepy/terms/terms_piezo.py
+++ b/sfepy/terms/terms_piezo.py
@@ -45,6 +45,8 @@ class PiezoCouplingTerm(Term):
         vvg, _ = self.get_mapping(vvar)
 
         if mode == 'weak':
+            svg, _ = self.get_mapping(svar)
+
             aux = nm.array([0], ndmin=4, dtype=nm.float64)
             if diff_var is None:
                 # grad or strain according to mode.
@@ -62,7 +64,7 @@ class PiezoCouplingTerm(Term):
                 strain, grad = val_qp, aux
                 fmode += 2
 
-            return strain, grad, mat, vvg, fmode
+            return strain, grad, mat, vvg, svg, fmode
 
         elif mode == 'eval':
             strain = self.get(vvar, 'cauchy_strain')
-- 
2.43.0


From 0022cef7afe28ad73d12d29557b20fde88fa4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 25/98] fix: eval mode of dw_surface_ltr with a nonsymmetric
 traction tensor

The term evaluated v . (sigma^T n) instead of the documented v . (sigma n),
which de_surface_ltr and ev_sd_surface_ltr use.
---
 sfepy/terms/terms_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_surface.py b/sfepy/terms/terms_surface.py
index 1135a14..19dad54 100644
--- a/sfepy/terms/terms_surface.py
+++ b/sfepy/terms/terms_surface.py
@@ -58,7 +58,7 @@ class LinearTractionTerm(Term):
             aux = dot_sequences(val, traction, 'ATB')
 
         elif tdim == dim and tdim2 == dim: # Traction tensor - nonsymmetric
-            trn = dot_sequences(traction, sg.normal, 'ATB')
+            trn = dot_sequences(traction, sg.normal, 'AB')
             aux = dot_sequences(val, trn, 'ATB')
 
         elif tdim == sym: # Traction tensor
-- 
2.43.0


From 823590f42abe1ee28a63eeb973cd2fd586508720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 26/98] fix: keep the binary search in assemble_matrix_b()
 within the row

---
 sfepy/discrete/common/extmods/assemble.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/extmods/assemble.pyx b/sfepy/discrete/common/extmods/assemble.pyx
index 362a23a..a02934a 100644
--- a/sfepy/discrete/common/extmods/assemble.pyx
+++ b/sfepy/discrete/common/extmods/assemble.pyx
@@ -248,7 +248,7 @@ def assemble_matrix_b(float64[::1] mtx not None,
 
                 iloc = n_epc * ir + ic
 
-                ik = bsearch(_cols, _prows[irg], _prows[irg + 1], icg)
+                ik = bsearch(_cols, _prows[irg], _prows[irg + 1] - 1, icg)
                 if ik >= 0:
                     val[ik] += sign * mtx_in_el[iloc]
 
@@ -302,7 +302,7 @@ def assemble_matrix_complex_b(complex128[::1] mtx not None,
 
                 iloc = n_epc * ir + ic
 
-                ik = bsearch(_cols, _prows[irg], _prows[irg + 1], icg)
+                ik = bsearch(_cols, _prows[irg], _prows[irg + 1] - 1, icg)
                 if ik >= 0:
                     val[ik] += sign * mtx_in_el[iloc]
 
-- 
2.43.0


From 70db0539518b4ab1d05ea5724b04d2ac6b25d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 27/98] fix: do not repeat the quadrature point index in
 multilinear term outputs

---
 sfepy/terms/terms_multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 43732bd..f833f55 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -520,7 +520,7 @@ class ExpressionBuilder(Struct):
 
         for ia, subscripts in enumerate(self.subscripts):
             ifree = [ii for ii in find_free_indices(subscripts)
-                     if ii not in self.out_subscripts[ia]]
+                     if (ii not in self.out_subscripts[ia]) and (ii != 'q')]
             if ifree:
                 # Lexicographic ordering of output indices, i.e.
                 # (n_comp, dim) or (dim, n_comp) <=> i.j or j.i
-- 
2.43.0


From f215083038af0d378f9d67efef0b243e15ae4625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 28/98] fix: apply_layout() with averaged values and
 non-default layouts

---
 sfepy/terms/terms_multilinear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index f833f55..79590d1 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -586,7 +586,7 @@ class ExpressionBuilder(Struct):
                 elif val_name in ('bf', 'dofs'):
                     default = defaults[val_name][op.ndim - 2]
 
-                elif val_name in ('I', 'Psg', 'Pvg'):
+                elif val_name in ('I', 'Psg', 'Pvg', 'ivol'):
                     default = layout.replace('0', '') # -> Do nothing.
 
                 else:
-- 
2.43.0


From 120d33cab17c769c7631bb895f4135930c99f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 29/98] fix: do not return stale transposed operands in
 multilinear terms

---
 sfepy/terms/terms_multilinear.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 79590d1..2535077 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -619,10 +619,12 @@ class ExpressionBuilder(Struct):
                         # id is unique only during object lifetime!
                         key = (id(op),) + tuple(inew)
 
-                    new_op = self.cache.get(key)
-                    if new_op is None:
+                    # Keep also op in the cache, to notice a reused id or new
+                    # DOFs computed by another term.
+                    old_op, new_op = self.cache.get(key, (None, None))
+                    if old_op is not op:
                         new_op = op.transpose(inew).copy()
-                        self.cache[key] = new_op
+                        self.cache[key] = (op, new_op)
 
                     new_subscripts[ia][io] = new_subs
                     new_operands[ia][io] = new_op
-- 
2.43.0


From 1378d3caf9411e59a158ff022c5ceb73c47b00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 30/98] fix: rebuild multilinear term expressions when the
 evaluation mode changes

---
 sfepy/terms/terms_multilinear.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 2535077..5dc46f8 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -831,13 +831,18 @@ class ETermBase(Term):
         timer = Timer('')
         timer.start()
 
-        einfo = self.einfos.setdefault(diff_var, Struct(
-            eargs=None,
-            ebuilder=None,
-            paths=None,
-            path_infos=None,
-            eval_einsum=None,
-        ))
+        key = (texpr, mode, diff_var)
+        einfo = self.einfos.get(diff_var)
+        if (einfo is None) or (einfo.key != key):
+            # The expressions depend on the evaluation mode.
+            einfo = self.einfos[diff_var] = Struct(
+                key=key,
+                eargs=None,
+                ebuilder=None,
+                paths=None,
+                path_infos=None,
+                eval_einsum=None,
+            )
 
         if einfo.eval_einsum is not None:
             if self.verbosity:
-- 
2.43.0


From 3bb62b6408ae39b1eaf527fef4088cf3184e7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 31/98] fix: qp mode of multilinear terms with qloop backends

---
 sfepy/terms/terms_multilinear.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 5dc46f8..9f38832 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -978,6 +978,13 @@ class ETermBase(Term):
                 vout = out.reshape(eshape)
                 slice_ops = all_slice_ops[0]
 
+                if mode == 'qp': # Do not sum over quadrature points.
+                    for iq in range(n_qp):
+                        ops = slice_ops(iq)
+                        vout[:, iq] = contract(expressions[0], *ops,
+                                               optimize=paths[0])
+                    return
+
                 ops = slice_ops(0)
                 vout[:] = contract(expressions[0], *ops,
                                    optimize=paths[0])
-- 
2.43.0


From d2bf4eeeac99fbd60fbb0331c072a3691b3003b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:06 +0000
Subject: [PATCH 32/98] fix: sensitivity terms with non-symmetric material
 coefficients

---
 sfepy/terms/terms_sensitivity.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/terms/terms_sensitivity.py b/sfepy/terms/terms_sensitivity.py
index f2d25e5..57a0a43 100644
--- a/sfepy/terms/terms_sensitivity.py
+++ b/sfepy/terms/terms_sensitivity.py
@@ -61,8 +61,8 @@ class ESDLinearElasticTerm(ETermBase):
 
         dim = grad_mv.shape[-1]
         mat_ns = mat if mat.shape[-1] == dim**2 else sym2nonsym(mat, [2, 3])
-        aux = dot_sequences(mat_ns, grad_op, mode='AB')
-        mat_sd = mat_ns * div_mv - aux - aux.transpose((0, 1, 3, 2))
+        mat_sd = mat_ns * div_mv - dot_sequences(mat_ns, grad_op, mode='AB')\
+               - dot_sequences(grad_op, mat_ns, mode='ATB')
 
         fun = self.make_function(
             'IK,v(i.j)->I,v(k.l)->K', (mat_sd, 'material'), vvar, svar,
@@ -164,8 +164,8 @@ class ESDDiffusionTerm(ETermBase):
         grad_mv = self.get(par_mv, 'grad')
         div_mv = nm.trace(grad_mv, axis1=2, axis2=3)[..., None, None]
 
-        aux = dot_sequences(mat, grad_mv, mode='AB')
-        mat_sd = mat * div_mv - aux - aux.transpose((0, 1, 3, 2))
+        mat_sd = mat * div_mv - dot_sequences(mat, grad_mv, mode='AB')\
+               - dot_sequences(grad_mv, mat, mode='ATB')
 
         fun = self.make_function(
             'ij,0.i,0.j', (mat_sd, 'material'), vvar, svar,
-- 
2.43.0


From 51ba0d9bfb70128f3124738cc37b2f6258641c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:22 +0000
Subject: [PATCH 33/98] fix: mark newly chained DOFs in map_equations()

When one DOF of an EPBC pair was already matched, the other DOF was only added
to the chains, but not marked as matched, so a subsequent EPBC involving it
did not continue the chain and its match got lost or overwritten.
---
 sfepy/discrete/common/dof_info.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sfepy/discrete/common/dof_info.py b/sfepy/discrete/common/dof_info.py
index 10e3b4f..2aa4af0 100644
--- a/sfepy/discrete/common/dof_info.py
+++ b/sfepy/discrete/common/dof_info.py
@@ -480,6 +480,12 @@ class EquationMap(Struct):
                     master_slave[meq[ii]] = seq[ii] + 1
                     master_slave[seq[ii]] = - meq[ii] - 1
 
+                    # Mark also the newly chained DOFs, so that the following
+                    # EPBCs can find them.
+                    ii = nm.setdiff1d(m_assigned, s_assigned)
+                    master_slave[seq[ii]] = - meq[ii] - 1
+                    master_slave[meq[msd]] = seq[msd] + 1
+
                 else:
                     master_slave[meq] = seq + 1
                     master_slave[seq] = - meq - 1
-- 
2.43.0


From 84577fb72231b5314ff286b42d679c8797cc29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:23 +0000
Subject: [PATCH 34/98] fix: check that a cached periodic match applies to the
 given coordinates

The periodic_cache keys consist only of the shape of the coordinates and the
direction, so a matching of other boundaries with the same number of nodes was
returned instead of computing the correct one.
---
 sfepy/discrete/fem/periodic.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/sfepy/discrete/fem/periodic.py b/sfepy/discrete/fem/periodic.py
index fa7c6a7..0334a18 100644
--- a/sfepy/discrete/fem/periodic.py
+++ b/sfepy/discrete/fem/periodic.py
@@ -10,6 +10,20 @@ eps = 1e-9
 def set_accuracy(eps):
     globals()['eps'] = eps
 
+def get_saved_match(key, coors1, coors2):
+    """
+    Get a previously computed matching from `periodic_cache`, if it applies to
+    the given coordinates, i.e. if it corresponds to a translation. Return None
+    if there is no such matching.
+    """
+    match = periodic_cache.get(key)
+    if match is not None:
+        diff = coors1[match[0]] - coors2[match[1]]
+        if not nm.all(nm.abs(diff - diff[:1]) < eps):
+            match = None
+
+    return match
+
 ##
 # c: 18.10.2006, r: 05.05.2008
 def match_grid_line(coors1, coors2, which, get_saved=True):
@@ -21,11 +35,12 @@ def match_grid_line(coors1, coors2, which, get_saved=True):
               % (coors1.shape, coors2.shape))
 
     key = coors1.shape + ('line', which)
-    if key in periodic_cache and get_saved:
-        return periodic_cache[key]
+    c1 = coors1[:,which]
+    c2 = coors2[:,which]
+    match = get_saved_match(key, c1, c2) if get_saved else None
+    if match is not None:
+        return match
     else:
-        c1 = coors1[:,which]
-        c2 = coors2[:,which]
         i1 = nm.argsort(c1)
         i2 = nm.argsort(c2)
 
@@ -60,8 +75,9 @@ def match_plane_by_dir(coors1, coors2, direction, get_saved=True):
 
     key_dir = None if direction is None else tuple(direction)
     key = coors1.shape + ('dir', key_dir)
-    if key in periodic_cache and get_saved:
-        return periodic_cache[key]
+    match = get_saved_match(key, coors1, coors2) if get_saved else None
+    if match is not None:
+        return match
     else:
         aux = coors2.copy()
         if direction is not None:
-- 
2.43.0


From f2233ce276d43f521e281f3d7e6f4684344471ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 35/98] fix: broadcast unit size operands in loop backends of
 multilinear terms

The constant auxiliary operands of de_m_sg_elastic and de_m_flexo_coupling have
unit cell and quadrature point axes, their slicing in the loop backends failed
with IndexError.
---
 sfepy/terms/terms_multilinear.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 9f38832..6dd2a8b 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -89,7 +89,9 @@ def get_sizes(indices, operands):
 
     for iis, op in zip(indices, operands):
         for ii, size in zip(iis, op.shape):
-            sizes[ii] = size
+            # Operands with a unit size can be broadcast.
+            if sizes.get(ii, 1) == 1:
+                sizes[ii] = size
 
     return sizes
 
@@ -168,7 +170,9 @@ def get_slice_ops(subs, ops, loop_index):
         for ii, icol in enumerate(ics):
             op = ops[ii]
             if icol is not None:
-                slices = tuple(slice(None, None) if isub != icol else ic
+                # Operands with a unit size are broadcast.
+                iop = ic if op.shape[icol] > 1 else 0
+                slices = tuple(slice(None, None) if isub != icol else iop
                                for isub in range(op.ndim))
                 sops.append(op[slices])
 
-- 
2.43.0


From 930349785eca39d95580de437176b6540d4bf639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 36/98] fix: comparison of time steppers

Time steppers with different times compared equal, time steppers with the same
times did not.
---
 sfepy/solvers/ts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts.py b/sfepy/solvers/ts.py
index 4b1f50a..d44f6cf 100644
--- a/sfepy/solvers/ts.py
+++ b/sfepy/solvers/ts.py
@@ -111,8 +111,8 @@ class TimeStepper(Struct):
     def __eq__(self, other):
 
         if type(other) == type(self):
-            return (abs(self.t0 == other.t0) < 1e-15) and \
-                   (abs(self.t1 == other.t1) < 1e-15) and \
+            return (abs(self.t0 - other.t0) < 1e-15) and \
+                   (abs(self.t1 - other.t1) < 1e-15) and \
                    (self.n_step == other.n_step)
         else:
             raise ValueError
-- 
2.43.0


From 9acc55177eac4c56ffc0f64fad5c12f39194d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 37/98] fix: undefined variable in
 ElastodynamicsBasicTSC.get_initial_dt()

---
 sfepy/solvers/ts_controllers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_controllers.py b/sfepy/solvers/ts_controllers.py
index 79bc596..0cefc61 100644
--- a/sfepy/solvers/ts_controllers.py
+++ b/sfepy/solvers/ts_controllers.py
@@ -125,7 +125,7 @@ class ElastodynamicsBasicTSC(TimeStepController):
         eps_a = min(*conf.eps_a)
         eps_r = min(*conf.eps_r)
 
-        aux = unpack(vec0)
+        aux = unpack(vec)
         u0, v0, a0 = aux if unpack.n_arg == 3 else (aux[0], aux[2], aux[3])
 
         d0 = eval_scaled_norm(u0, eps_a, eps_r)
-- 
2.43.0


From fc9502ff2b4ed71b2898e8df8b33f21967b9fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 38/98] fix: keep the time step reduction factor within its
 bound in adapt_time_step()

When the maximum reduction was reached, the stored factor fell below the bound
without being applied and the following time step "increase" then set a time
step below the prescribed minimum.
---
 sfepy/solvers/ts_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index c486fc3..da42c57 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -288,11 +288,12 @@ def adapt_time_step(ts, status, adt, context=None, verbose=False):
         is_break = True
 
     else:
-        adt.red = adt.red * adt.red_factor
-        if adt.red < adt.red_max:
+        red = adt.red * adt.red_factor
+        if red < adt.red_max:
             is_break = True
 
         else:
+            adt.red = red
             ts.set_time_step(adt.dt0 * adt.red, update_time=True)
             output('----- new time step: %e -----' % ts.dt,
                    verbose=verbose)
-- 
2.43.0


From 3527c71b82dc73b3238a35a7297d2658065c06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 39/98] fix: return the last state from elastodynamics solvers

The state of the last but one step was returned.
---
 sfepy/solvers/ts_solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index da42c57..e689012 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -748,6 +748,8 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
             # Current step state q(t_{n+1}).
             vect = poststep_fun(ts, vect)
 
+            vec = vect
+
             if ts.nt >= 1:
                 break
 
@@ -755,8 +757,6 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
                 ts.set_time_step(new_dt, update_time=False)
             ts.advance()
 
-            vec = vect
-
         return vec
 
 class VelocityVerletTS(ElastodynamicsBaseTS):
-- 
2.43.0


From 340e02a4f0911624f2acc113fcdfe4b4c8b8318c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:42 +0000
Subject: [PATCH 40/98] fix: sub-step times in BatheTS

The solver is invoked with the time set to t_{n+1}, but the first sub-step was
solved in t_{n+1} instead of t_n + dt/2 and the second sub-step in t_{n+1} +
dt/2 instead of t_{n+1}.
---
 sfepy/solvers/ts_solvers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index e689012..0aadcd3 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -1311,13 +1311,19 @@ class BatheTS(ElastodynamicsBaseTS):
         Solve a single time step.
         """
         dt = ts.dt
+
+        # Set time to the first sub-step time t_n + dt/2 = t_{n+1} - dt/2.
+        ts.set_substep_time(- 0.5 * dt)
+        vec = prestep_fun(ts, vec)
+
         ut, vt, at = unpack(vec)
         nlst1 = self.create_nlst1(nls, dt, ut, vt, at)
         ut1 = nlst1(ut)
         vt1 = nlst1.v(ut1)
         at1 = nlst1.a(vt1)
 
-        ts.set_substep_time(0.5 * dt)
+        # Restore t_{n+1}.
+        ts.restore_step_time()
 
         vec1 = pack(ut1, vt1, at1)
         vec1 = prestep_fun(ts, vec1)
@@ -1327,8 +1333,6 @@ class BatheTS(ElastodynamicsBaseTS):
         vt2 = nlst2.v(ut2)
         at2 = nlst2.a(vt2)
 
-        ts.restore_step_time()
-
         vec2 = pack(ut2, vt2, at2)
 
         return vec2
-- 
2.43.0


From 2dcb89b14fd8ee65ab99eabaabe3aaad1c5300a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 41/98] fix: state returned when giving up the line search in
 Newton

---
 sfepy/solvers/nls.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a415abd..a4db9ba 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -198,6 +198,8 @@ def apply_line_search_bt(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                # Return the last accepted state.
+                vec_x, vec_r, err = vec_x0.copy(), vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -366,6 +368,8 @@ def apply_line_search_ipc(vec_x0, vec_r0, vec_dx0, it, err_last, conf, fun,
         else: # Failure.
             if conf.give_up_warp:
                 output('giving up!')
+                # Return the last accepted state.
+                vec_x, vec_r, err = vec_x0.copy(), vec_r0, err_last
                 break
 
             red = conf.ls_red_warp
@@ -642,14 +646,14 @@ class Newton(NonlinearSolver):
             if (self.log is not None) and ('iteration' in conf.log_vlines):
                 self.log.plot_vlines([1], color='g', linewidth=0.5)
 
-            condition = conv_test(conf, it, err, err0)
-            if condition >= 0:
-                break
-
             if (not ok) and conf.give_up_warp:
                 condition = 2
                 break
 
+            condition = conv_test(conf, it, err, err0)
+            if condition >= 0:
+                break
+
             timers.matrix.start()
             if not conf.is_linear:
                 if (is_new_jacobian(it, it_jac, vec_r, vec_r_last, vec_x,
-- 
2.43.0


From 83f35cee48726a0e8f1231a15bb1490af6d16ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 42/98] fix: undefined matrix in Newton._apply_lin_solver()
 with scaled_error and error line search

---
 sfepy/solvers/nls.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index a4db9ba..f551b4c 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -543,6 +543,7 @@ class Newton(NonlinearSolver):
             svec_dx = lin_solver(svec_r, x0=svec_x,
                                  eps_a=eps_a, eps_r=eps_r,
                                  status=ls_status)
+            smtx_a = lin_solver.mtx
 
         vec_dx = scale_solution(svec_dx, self.context)
         timers.solve.stop()
-- 
2.43.0


From cc8a8375cb2ca0cd98376fc095f6a4cc39e1603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 43/98] fix: condition reported by ScipyRoot

---
 sfepy/solvers/nls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/nls.py b/sfepy/solvers/nls.py
index f551b4c..ee9cd78 100644
--- a/sfepy/solvers/nls.py
+++ b/sfepy/solvers/nls.py
@@ -776,7 +776,7 @@ class ScipyRoot(NonlinearSolver):
             status['err'] = err
             status['n_iter'] = nit
             status['n_fev'] = sol.nfev
-            status['condition'] = sol.status
+            status['condition'] = 0 if sol.success else 1
 
         if conf.report_status:
             output(sol.message)
-- 
2.43.0


From 28b7d01507a3046fc4fcf8f060c5c0ff9d79bc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 44/98] fix: Jacobian of the non-smooth equation in
 SemismoothNewton

---
 sfepy/solvers/semismooth_newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 7af80c5..93ed6d5 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -308,7 +308,7 @@ class SemismoothNewton(Newton):
                 mul_b[iz] = ((mtx_b_z @ vec_z) / sqrt_ab) - 1.0
 
         else:
-            iz = nm.where(vec_a_r > vec_b_r)[0]
+            iz = nm.where(vec_a_r < vec_b_r)[0]
             mul_a = nm.zeros_like(vec_a_r)
             mul_b = nm.ones_like(mul_a)
 
-- 
2.43.0


From ef5523ad4b154f5c1b3fa2018e8967b5d5560a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:36 +0000
Subject: [PATCH 45/98] fix: restored residual in SemismoothNewton line search

---
 sfepy/solvers/semismooth_newton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/semismooth_newton.py b/sfepy/solvers/semismooth_newton.py
index 93ed6d5..633f22a 100644
--- a/sfepy/solvers/semismooth_newton.py
+++ b/sfepy/solvers/semismooth_newton.py
@@ -129,8 +129,6 @@ class SemismoothNewton(Newton):
                         vec_semismooth_r = nm.where(vec_a_r < vec_b_r,
                                                     vec_a_r, vec_b_r)
 
-                    r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
-
                     ok = True
 
                 time_stats['residual'] = timer.stop()
@@ -175,6 +173,7 @@ class SemismoothNewton(Newton):
                         vec_x = vec_x_last.copy()
                         (vec_smooth_r, vec_a_r, vec_b_r,
                          vec_semismooth_r) = r_last
+                        vec_r = nm.r_[vec_smooth_r, vec_semismooth_r]
                         err = err_last
                         reuse_matrix = True
 
@@ -203,6 +202,7 @@ class SemismoothNewton(Newton):
 
             err_last = err;
             vec_x_last = vec_x.copy()
+            r_last = (vec_smooth_r, vec_a_r, vec_b_r, vec_semismooth_r)
 
             condition = conv_test(conf, it, err, err0)
             if condition >= 0:
-- 
2.43.0


From 9b0f5d0d2f4eced2f76c77c6e987e290ad7d2e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:33 +0000
Subject: [PATCH 46/98] fix: term coefficients and test variables in
 transform_equations_ed()

---
 sfepy/solvers/ts_solvers.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 0aadcd3..4042572 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -440,10 +440,15 @@ def transform_equations_ed(equations, materials):
         FieldVariable(ddvname, 'test', variables[uname].field,
                       primary_var_name=dduname),
     ])
+
+    def replace_arg(arg_str, new_vname):
+        args = [ii.strip() for ii in arg_str.split(',')]
+        return ','.join([new_vname if ii == vname else ii for ii in args])
+
     for it, term in enumerate(eq_mass.copy()):
-        aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
-        arg_str = aux.replace(f',{vname},', f',{ddvname},')
+        arg_str = replace_arg(term.arg_str, ddvname)
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
@@ -451,9 +456,9 @@ def transform_equations_ed(equations, materials):
         eq_mass[it] = new_term
 
     for it, term in enumerate(eq_damping.copy()):
-        aux = ','.join([ii.strip() for ii in term.arg_str.split(',')])
-        arg_str = aux.replace(f',{vname},', f',{dvname},')
+        arg_str = replace_arg(term.arg_str, dvname)
         new_term = term.__class__(term.name, arg_str, term.integral, term.region)
+        new_term.sign = term.sign
         new_term.setup(allow_derivatives=False)
         new_term.assign_args(new_variables, materials, user=None)
 
-- 
2.43.0


From f6ebc89b132b2dca5aa0c643169f74e437f4cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 47/98] fix: terms with several state variables in
 transform_equations_ed()

---
 sfepy/solvers/ts_solvers.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index 4042572..b111094 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -403,22 +403,23 @@ def transform_equations_ed(equations, materials):
     variables = equations.variables
     for eq in equations:
         for term in eq.terms:
+            ders = set()
             for name in term.names.state:
                 der = term.arg_derivatives[name]
                 if ((der is not None) and
                     isinstance(der, int) and
                     (der > 0)):
                     new_var_primary.add(name)
-                    if der == 2:
-                        eq_mass.append(term)
+                    ders.add(der)
 
-                    else:
-                        eq_damping.append(term)
+            if 2 in ders:
+                eq_mass.append(term)
 
-                else:
-                    eq_other.append(term)
+            elif len(ders):
+                eq_damping.append(term)
 
-                continue
+            else:
+                eq_other.append(term)
 
     assert len(new_var_primary) == 1
     uname = new_var_primary.pop()
-- 
2.43.0


From c0139e130f67616ef73a18407602eb49ccdb6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 48/98] fix: matrices of linear elastodynamics problems after
 clearing them

---
 sfepy/solvers/ts_solvers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sfepy/solvers/ts_solvers.py b/sfepy/solvers/ts_solvers.py
index b111094..e70476f 100644
--- a/sfepy/solvers/ts_solvers.py
+++ b/sfepy/solvers/ts_solvers.py
@@ -621,8 +621,9 @@ class ElastodynamicsBaseTS(TimeSteppingSolver):
                 K = aux[iue, iue]
 
             else:
-                assert_((len(vec) % 3) == 0)
-                i3 = len(vec) // 3
+                # vec can be None for linear problems.
+                assert_((aux.shape[0] % 3) == 0)
+                i3 = aux.shape[0] // 3
 
                 K = aux[:i3, :i3]
                 C = aux[i3:2*i3, i3:2*i3]
-- 
2.43.0


From ba51a01425b532f8da5b3530d1e648d4eff9a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 49/98] fix: Region.contains() accepted regions that only
 overlap

---
 sfepy/discrete/common/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index bd8f097..040d441 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -774,9 +774,9 @@ class Region(Struct):
         tdim = other.kind_tdim
 
         se = self.get_entities(tdim)
-        oe = other.entities[tdim]
+        oe = other.get_entities(tdim)
 
-        return len(nm.intersect1d(se, oe))
+        return len(nm.setdiff1d(oe, se)) == 0
 
     def get_charfun(self, by_cell=False, val_by_id=False):
         """
-- 
2.43.0


From 49e5220de7c6ac3c54540291133a8d4318dfbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 50/98] fix: repeated or unsorted entities in regions

---
 sfepy/discrete/common/region.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 040d441..42ec485 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -311,7 +311,7 @@ class Region(Struct):
     @vertices.setter
     def vertices(self, vals):
         if self.can_vertices:
-            self.entities[0] = nm.asarray(vals, dtype=nm.uint32)
+            self.entities[0] = nm.unique(nm.asarray(vals, dtype=nm.uint32))
 
         else:
             raise ValueError('region "%s" cannot have vertices!' % self.name)
@@ -334,7 +334,7 @@ class Region(Struct):
     @edges.setter
     def edges(self, vals):
         if self.can_edges:
-            self.entities[1] = nm.asarray(vals, dtype=nm.uint32)
+            self.entities[1] = nm.unique(nm.asarray(vals, dtype=nm.uint32))
 
         else:
             raise ValueError('region "%s" cannot have edges!' % self.name)
@@ -357,7 +357,7 @@ class Region(Struct):
     @faces.setter
     def faces(self, vals):
         if self.can_faces:
-            self.entities[2] = nm.asarray(vals, dtype=nm.uint32)
+            self.entities[2] = nm.unique(nm.asarray(vals, dtype=nm.uint32))
 
         else:
             raise ValueError('region "%s" cannot have faces!' % self.name)
@@ -393,7 +393,7 @@ class Region(Struct):
     @cells.setter
     def cells(self, vals):
         if self.can_cells:
-            self.entities[self.tdim] = nm.asarray(vals, dtype=nm.uint32)
+            self.entities[self.tdim] = nm.unique(nm.asarray(vals, dtype=nm.uint32))
 
         else:
             raise ValueError('region "%s" cannot have cells!' % self.name)
-- 
2.43.0


From 05b65adfeea2d2cc7dcd97df5d473cacbf2f8bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 51/98] fix: region defined by a reference replaced the
 referenced region

---
 sfepy/discrete/common/domain.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index a2917ae..0c92e2b 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -273,6 +273,13 @@ class Domain(Struct):
                              region_leaf(self, self.regions, select,
                                          functions, tdim))
 
+        if any(region is reg for reg in self.regions):
+            # Keep the referenced region intact.
+            aux = region.light_copy(name, region.parse_def, tdim=region.tdim)
+            aux.entities = [None if ents is None else ents.copy()
+                            for ents in region.entities]
+            region = aux
+
         finalize = True
         if eopts is not None:
             if 'mesh_dim' in eopts:
-- 
2.43.0


From 408728bb1e9266760dbcac3c0106e778c1ed8ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 52/98] fix: Region.get_cells() of cell_only regions

---
 sfepy/discrete/common/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/region.py b/sfepy/discrete/common/region.py
index 42ec485..f55e234 100644
--- a/sfepy/discrete/common/region.py
+++ b/sfepy/discrete/common/region.py
@@ -597,7 +597,7 @@ class Region(Struct):
         to facets are returned if the region itself contains no cells. Obeys
         parent region, if given.
         """
-        if self.kind != 'cell':
+        if not self.can_cells:
             if true_cells_only:
                 msg = 'region %s has not true cells! (has kind: %s)' \
                       % (self.name, self.kind)
-- 
2.43.0


From 71293258b08a1ee5de09fe236865c9602553d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 53/98] fix: cells selected by a function in meshes embedded in
 a higher dimension

---
 sfepy/discrete/common/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index 0c92e2b..fb64007 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -82,7 +82,7 @@ def region_leaf(domain, regions, rdef, functions, tdim):
         elif token == 'E_CBF':
             where = details[2]
 
-            coors = domain.get_centroids(dim)
+            coors = cmesh.get_centroids(tdim)
 
             fun = functions[where]
             cells = fun(coors, domain=domain)
-- 
2.43.0


From 3981d9d14c57501f57f477a2c252f5df4785663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 54/98] fix: facet indices of regions with no facet in the
 parent region

---
 sfepy/discrete/common/extmods/cmesh.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index ffb937f..b1d51fc 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -572,7 +572,7 @@ cdef class CMesh:
         cdef MeshConnectivity _incident[1]
         cdef np.ndarray[uint32, mode='c', ndim=1] out
 
-        if not entities.shape[0] > 0:
+        if not (entities.shape[0] > 0 and incident.shape[0] > 0):
             return np.empty(0, dtype=np.uint32)
 
         _entities.num = entities.shape[0]
-- 
2.43.0


From 6e9c0fa967eb44fadf3eb9346431422cb4f7041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:34 +0000
Subject: [PATCH 55/98] fix: cell groups of the requested dimension in region
 definitions

---
 sfepy/discrete/common/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/domain.py b/sfepy/discrete/common/domain.py
index fb64007..c2c0b2b 100644
--- a/sfepy/discrete/common/domain.py
+++ b/sfepy/discrete/common/domain.py
@@ -92,7 +92,7 @@ def region_leaf(domain, regions, rdef, functions, tdim):
         elif token == 'E_COG':
             group = int(details[3])
             td = 0
-            for k in range(4):
+            for k in [tdim] + list(range(4)):
                 if domain.cmesh_tdim[k] is not None:
                     cg = domain.cmesh_tdim[k].cell_groups
                     if nm.any(cg == group):
-- 
2.43.0


From ddd10d9bc18a9ac65cbf7113aceaeb087d592e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:54 +0000
Subject: [PATCH 56/98] fix: faces shared by wedges and other cells

---
 sfepy/discrete/common/extmods/mesh.c | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index 245d2b5..0836ca6 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -401,15 +401,14 @@ int32 mesh_build(Mesh *mesh, int32 dim)
 {
   int32 ret = RET_OK;
   uint32 n_incident, n_v_max, n_loc;
-  uint32 ii, ic, id, found;
+  uint32 ii, ic, id;
   uint32 D = mesh->topology->max_dim;
-  uint32 facet[4]; // Max. space for single facet.
   uint32 *oris = 0;
   uint32 loc_oris[12];
   uint32 *nDd = 0;
   uint32 *ptr1 = 0, *ptr2 = 0;
   uint32 *cell_types = mesh->topology->cell_types;
-  Indices cell_vertices[1];
+  Indices cell_vertices[1], ei1[1], ei2[1];
   MeshEntityIterator it0[1], it1[1], it2[1];
   MeshConnectivity *cD0 = 0; // D -> 0 - known
   MeshConnectivity *cDd = 0; // D -> d - to compute
@@ -494,6 +493,8 @@ int32 mesh_build(Mesh *mesh, int32 dim)
     for (ii = 0; ii < loc->num; ii++) {
       // ii points to a vertex set in sloc/gloc.
       n_loc = sloc->offsets[ii+1] - sloc->offsets[ii];
+      ei2->indices = gloc->indices + gloc->offsets[ii];
+      ei2->num = n_loc;
 
       // Try to find entity in cells visited previously.
       for (mei_init_conn(it1, it0->entity, D); mei_go(it1); mei_next(it1)) {
@@ -501,17 +502,9 @@ int32 mesh_build(Mesh *mesh, int32 dim)
 
         // Iterate over facets of visited cells.
         for (mei_init_conn(it2, it1->entity, dim); mei_go(it2); mei_next(it2)) {
-          ptr1 = cd0->indices + cd0->offsets[it2->entity->ii];
-          uint32_sort234_copy(facet, ptr1, n_loc);
-          ptr2 = sloc->indices + sloc->offsets[ii];
-          found = 1;
-          for (ic = 0; ic < n_loc; ic++) {
-            if (facet[ic] != ptr2[ic]) {
-              found = 0;
-              break;
-            }
-          }
-          if (found) {
+          // Compare as sets, because triangular faces of wedges repeat a vertex.
+          me_get_incident2(it2->entity, ei1, cd0);
+          if (contains(ei1, ei2) && contains(ei2, ei1)) {
             // Assign existing entity to D -> d.
             conn_set_to_free(cDd, it0->entity->ii, it2->entity->ii);
             goto found_label;
-- 
2.43.0


From 660ae558586712588c69b4a3999a0b10ecc84955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 57/98] fix: shape of graphs of mesh connectivities

---
 sfepy/discrete/common/extmods/cmesh.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/cmesh.pyx b/sfepy/discrete/common/extmods/cmesh.pyx
index b1d51fc..5f955d1 100644
--- a/sfepy/discrete/common/extmods/cmesh.pyx
+++ b/sfepy/discrete/common/extmods/cmesh.pyx
@@ -485,7 +485,8 @@ cdef class CMesh:
                                np.array(conn.indices, copy=True,
                                         dtype=np.int32),
                                np.array(conn.offsets, copy=True,
-                                        dtype=np.int32)))
+                                        dtype=np.int32)),
+                              shape=(self.num[d1], self.num[d2]))
 
         return graph
 
-- 
2.43.0


From 7e3b6202321a34bb08593f51dc3e6683f22db726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 58/98] fix: reading past the end of mesh connectivities

---
 sfepy/discrete/common/extmods/mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/common/extmods/mesh.c b/sfepy/discrete/common/extmods/mesh.c
index 0836ca6..57c84e7 100644
--- a/sfepy/discrete/common/extmods/mesh.c
+++ b/sfepy/discrete/common/extmods/mesh.c
@@ -145,7 +145,7 @@ inline int32 mei_init_conn(MeshEntityIterator *iter, MeshEntity *entity,
   if ((conn->num > 0) && (conn->indices > 0)) {
     iter->ptr = conn->indices + conn->offsets[entity->ii];
     iter->it_end = conn->offsets[entity->ii+1] - conn->offsets[entity->ii];
-    iter->entity->ii = iter->ptr[iter->it];
+    iter->entity->ii = iter->it_end ? iter->ptr[iter->it] : 0;
   } else {
     iter->ptr = 0;
     iter->it_end = 0;
-- 
2.43.0


From 133a89518e90aec0cd46d2069443f81a7bf60bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:04 +0000
Subject: [PATCH 59/98] fix: shear components in Saint Venant-Kirchhoff term

The stress function modified the material data in place, and the tangent modulus
had the rows of the shear components multiplied by two.
---
 sfepy/terms/terms_hyperelastic_tl.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 40371db..e04cf63 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -503,18 +503,15 @@ class SaintVenantKirchhoffTLTerm(HyperElasticTLBase):
     geometries = ['3_4', '3_8']
 
     def stress_function(self, out, mat, *fargs, **kwargs):
-        sym_e = fargs[0]
+        sym_e = fargs[0].copy()
         mat = HyperElasticBase.tile_mat(mat, sym_e.shape[0])
         dim = self.region.dim
-        mat[:, :, :, dim:] *= 2 # fix shear components
+        sym_e[:, :, dim:] *= 2 # fix shear components
         out[:] = nm.einsum('ijkl,ijl...->ijk...', mat, sym_e)
         return out
 
     def tan_mod_function(self, out, mat, *fargs, **kwargs):
-        mat = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
-        dim = self.region.dim
-        mat[:, :, dim:, :] *= 2 # fix shear components
-        out[:] = mat
+        out[:] = HyperElasticBase.tile_mat(mat, fargs[0].shape[0])
         return out
 
 class MooneyRivlinTLTerm(HyperElasticTLBase):
-- 
2.43.0


From c07003dcd9af8aef0089eba52880079cf552b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:14 +0000
Subject: [PATCH 60/98] fix: hyperelastic tangents use the current stress

The stress of the last residual evaluation was used in the matrix mode even if
the state or material parameters changed since.
---
 sfepy/terms/terms_hyperelastic_base.py | 11 +----------
 sfepy/terms/terms_hyperelastic_tl.py   |  6 +-----
 sfepy/terms/terms_hyperelastic_ul.py   |  6 +-----
 3 files changed, 3 insertions(+), 20 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_base.py b/sfepy/terms/terms_hyperelastic_base.py
index 2a9df7a..2317c2f 100644
--- a/sfepy/terms/terms_hyperelastic_base.py
+++ b/sfepy/terms/terms_hyperelastic_base.py
@@ -153,11 +153,6 @@ class HyperElasticBase(Term):
     def function(out, fun, *args):
         return fun(out, *args)
 
-    def __init__(self, *args, **kwargs):
-        Term.__init__(self, *args, **kwargs)
-
-        self.stress_cache = None
-
     def compute_stress(self, mat, family_data, **kwargs):
         out = nm.empty_like(family_data.green_strain)
 
@@ -195,16 +190,12 @@ class HyperElasticBase(Term):
         if mode == 'weak':
             if diff_var is None:
                 stress = self.compute_stress(mat, fd, **kwargs)
-                self.stress_cache = stress
                 tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                 fmode = 0
 
             else:
-                stress = self.stress_cache
-                if stress is None:
-                    stress = self.compute_stress(mat, fd, **kwargs)
-
+                stress = self.compute_stress(mat, fd, **kwargs)
                 tan_mod = self.compute_tan_mod(mat, fd, **kwargs)
                 fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index e04cf63..d5200e3 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -643,16 +643,12 @@ class BulkPressureTLTerm(HyperElasticTLBase):
             if diff_var != state_p.name:
                 if diff_var is None:
                     stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
+                    stress = self.compute_data(fd, 0, **kwargs)
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
diff --git a/sfepy/terms/terms_hyperelastic_ul.py b/sfepy/terms/terms_hyperelastic_ul.py
index dbec72d..19cfb89 100644
--- a/sfepy/terms/terms_hyperelastic_ul.py
+++ b/sfepy/terms/terms_hyperelastic_ul.py
@@ -153,16 +153,12 @@ class BulkPressureULTerm(HyperElasticULBase):
             if diff_var != state_p.name:
                 if diff_var is None:
                     stress = self.compute_data(fd, 0, **kwargs)
-                    self.stress_cache = stress
                     tan_mod = nm.array([0], ndmin=4, dtype=nm.float64)
 
                     fmode = 0
 
                 else:
-                    stress = self.stress_cache
-                    if stress is None:
-                        stress = self.compute_data(fd, 0, **kwargs)
-
+                    stress = self.compute_data(fd, 0, **kwargs)
                     tan_mod = self.compute_data(fd, 1, **kwargs)
                     fmode = 1
 
-- 
2.43.0


From 4dc426c62579daf442f915cf60aae06046177ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:19 +0000
Subject: [PATCH 61/98] fix: stress and tangent modulus of Ogden term

Both follow from the isochoric principal stretches now: the stress used the
total stretches, while the tangent modulus mixed the two.
---
 sfepy/terms/terms_hyperelastic_tl.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index d5200e3..6636c27 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -318,10 +318,11 @@ class OgdenTLTerm(HyperElasticTLBase):
 
     .. math::
         S^{(k)} = J^{-2/3} \, \left(
-            \mu \, \bar\lambda^{\alpha - 2}
+            \mu \, \bar\lambda_k^{\alpha - 2}
             -\sum_{j=1}^3 \frac{\mu}{3}
-            \frac{\lambda_j^{\alpha}}{\lambda_k^2} \right) \; ,
-        \quad k = 1, 2, 3 \; .
+            \frac{\bar\lambda_j^{\alpha}}{\bar\lambda_k^2} \right) \; ,
+        \quad \bar\lambda_k = J^{-1/3} \lambda_k \; ,
+        \quad k = 1, 2, 3 \; ,
 
     and :math:`\mathbf{N}^{(k)}`, :math:`k=1, 2, 3` are the eigenvectors of
     :math:`\mathbf{C}`.
@@ -354,7 +355,8 @@ class OgdenTLTerm(HyperElasticTLBase):
     geometries = ['3_4', '3_8']
 
     @staticmethod
-    def _get_single_stress(lbds, nks, det_f, coef, exp):
+    def _get_single_stress(total_lbds, nks, det_f, coef, exp):
+        lbds = det_f**(-1. / 3) * total_lbds
         a_p = sum(lbds**exp)
         s_k = [
             coef * det_f**(-2. / 3) *(
@@ -390,14 +392,14 @@ class OgdenTLTerm(HyperElasticTLBase):
     def _get_single_tan_mod(total_lbds, nks, det_f, coef, exp):
         lbds = det_f**(-1/3) * total_lbds
         _bracket = [
-            (det_f**(-1 / 3) * lbdi)**(exp - 2)
+            lbdi**(exp - 2)
             -sum([1. / 3 * lbdj**exp / lbdi**2 for lbdj in lbds])
             for lbdi in lbds]
         s_k = nm.array([
             coef * det_f**(-2 / 3) * _bracket_ii
             for lbdi, _bracket_ii in zip(lbds, _bracket)])
 
-        dj_dlbd = [det_f / lbdj for lbdj in lbds]
+        dj_dlbd = [det_f / lbdj for lbdj in total_lbds]
 
         dlbd_dlbd = det_f**(-1/3) * nm.array([[
             nm.eye(3)[ii, jj] - lbds[ii] / lbds[jj] / 3
@@ -423,19 +425,19 @@ class OgdenTLTerm(HyperElasticTLBase):
         for mm, nn, pp, qq in zip(*[ind.flatten()
                                     for ind in nm.indices(tan_mod.shape)]):
             for ii, jj in zip(*[ind.flatten() for ind in nm.indices((3, 3))]):
-                tan_mod[mm, nn, pp, qq] += 1. / lbds[jj] * dsk_dlbd[ii, jj] * (
+                tan_mod[mm, nn, pp, qq] += 1. / total_lbds[jj] * dsk_dlbd[ii, jj] * (
                     nks[ii, mm] * nks[ii, nn] * nks[jj, pp] * nks[jj, qq])
                 if ii != jj:
-                    if lbds[ii] != lbds[jj]:
+                    if total_lbds[ii] != total_lbds[jj]:
                         tan_mod[mm, nn, pp, qq] += (s_k[jj] - s_k[ii]) / \
-                            (lbds[jj]**2 - lbds[ii]**2) * (
+                            (total_lbds[jj]**2 - total_lbds[ii]**2) * (
                                 nks[ii, mm] * nks[jj, nn] * nks[ii, pp]
                                 *nks[jj, qq]
                                 +nks[ii, mm] * nks[jj, nn] * nks[jj, pp]
                                 *nks[ii, qq])
                     else:
                         _val = 0.5 * (
-                            dsk_dlbd[ii, ii] - dsk_dlbd[jj, ii]) / lbds[ii]
+                            dsk_dlbd[ii, ii] - dsk_dlbd[jj, ii]) / total_lbds[ii]
                         tan_mod[mm, nn, pp, qq] += _val * (
                                 nks[ii, mm] * nks[jj, nn] * nks[ii, pp]
                                 *nks[jj, qq]
-- 
2.43.0


From 8fbfe2ac5c9c79b84d97b0153f324d3a8631960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:46 +0000
Subject: [PATCH 62/98] fix: shear components of fibre strain

The Green strain components are stored once, E : omega needs them twice.
---
 sfepy/terms/terms_fibres.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index e02b6c2..8f450f6 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -2,7 +2,7 @@ import numpy as nm
 
 from sfepy.base.base import Struct
 from sfepy.terms.terms_hyperelastic_tl import HyperElasticTLBase
-from sfepy.mechanics.tensors import dim2sym
+from sfepy.mechanics.tensors import dim2sym, sym2dim
 from sfepy.homogenization.utils import iter_sym
 
 def create_omega(fdir):
@@ -21,9 +21,12 @@ def compute_fibre_strain(green_strain, omega):
     """
     Compute the Green strain projected to the fibre direction.
     """
+    dim = sym2dim(omega.shape[2])
     eps = nm.zeros_like(omega[..., :1, :])
     for ii in range(omega.shape[2]):
-        eps[..., 0, 0] += omega[..., ii, 0] * green_strain[..., ii, 0]
+        # The shear components are stored once.
+        mul = 1.0 if ii < dim else 2.0
+        eps[..., 0, 0] += mul * omega[..., ii, 0] * green_strain[..., ii, 0]
 
     return eps
 
-- 
2.43.0


From 1ae202158332a7419aa6cc44bd5d86ab8bb68e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:46 +0000
Subject: [PATCH 63/98] fix: fibre terms with changing fibre directions

The direction tensor of the first evaluation was used ever after.
---
 sfepy/terms/terms_fibres.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index 8f450f6..80b6458 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -104,9 +104,7 @@ class FibresActiveTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         fmax, eps_opt, s, fdir, act = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
 
@@ -189,9 +187,7 @@ class FibresExponentialTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = fibre_data.eps = compute_fibre_strain(green_strain, omega)
 
@@ -289,9 +285,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
                         fibre_data=None):
         alpha, sigma, k, eps0, fdir = pars
 
-        omega = fibre_data.get('omega', None)
-        if omega is None:
-            omega = fibre_data.omega = create_omega(fdir)
+        omega = fibre_data.omega = create_omega(fdir)
 
         eps = compute_fibre_strain(green_strain, omega)
 
-- 
2.43.0


From c29b54c2f9e464b4a1484b267f57cfea62929ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:46 +0000
Subject: [PATCH 64/98] fix: tension and evaluation of soft-plus fibre term

The stress was not the documented one and not consistent with the tangent modulus,
and get_eval_shape() had an argument too many.
---
 sfepy/terms/terms_fibres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/terms/terms_fibres.py b/sfepy/terms/terms_fibres.py
index 80b6458..ace512c 100644
--- a/sfepy/terms/terms_fibres.py
+++ b/sfepy/terms/terms_fibres.py
@@ -289,7 +289,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
 
         eps = compute_fibre_strain(green_strain, omega)
 
-        tau0 = fibre_data.tau0 = sigma * nm.exp(k * (eps - eps0)) - 1.0
+        tau0 = fibre_data.tau0 = sigma * (nm.exp(k * (eps - eps0)) - 1.0)
         # Stable relation for
         # tau = (1.0 / alpha) * nm.log(1.0 + nm.exp(alpha * tau0))
         tau = (1.0 / alpha) * nm.logaddexp(0, alpha * tau0)
@@ -314,7 +314,7 @@ class FibresSoftPlusExponentialTLTerm(HyperElasticTLBase):
 
         out[:] *= tan_mod
 
-    def get_eval_shape(self, mat1, mat2, mat3, mat4, mat5, virtual, state,
+    def get_eval_shape(self, mat0, mat1, mat2, mat3, mat4, virtual, state,
                        mode=None, term_mode=None, diff_var=None, **kwargs):
         n_el, n_qp, dim, n_en, n_c = self.get_data_shape(state)
         sym = dim2sym(dim)
-- 
2.43.0


From 32d0bc365741c96ea84613f52ca5efe1c94b668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 65/98] fix: use previous time step values in multilinear terms

ETermBase terms evaluated u[-1] as u, because the history step of the
argument was not passed to the variable.
---
 sfepy/terms/terms_multilinear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/terms/terms_multilinear.py b/sfepy/terms/terms_multilinear.py
index 6dd2a8b..568ff04 100644
--- a/sfepy/terms/terms_multilinear.py
+++ b/sfepy/terms/terms_multilinear.py
@@ -221,7 +221,8 @@ class ExpressionArg(Struct):
         dofs = cache.get(key)
         if dofs is None:
             arg = self.arg
-            dofs_vec = self.arg(derivative=key[-1])
+            dofs_vec = self.arg(step=self.term.arg_steps[self.name],
+                                derivative=key[-1])
             dofs_vec = dofs_vec.reshape((-1, arg.n_components))
             # # axis 0: cells, axis 1: node, axis 2: component
             # dofs = dofs_vec[conn]
-- 
2.43.0


From a52d7aa42f95d51ca4f631965e72564abdd2992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 66/98] fix: set and get data of the requested history step

Variables store the data of step -k in data[k]. Setting and getting the data
of previous steps used data[-k], which is a different item for history > 1.
FieldVariable.set_from_qp() did not invalidate the evaluate cache.
---
 sfepy/discrete/variables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index f052efa..77ec81d 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1306,7 +1306,7 @@ class Variable(Struct):
                              % (step, -(len(self.data) - 1)))
 
         else:
-            self.data[step] = data
+            self.data[-step] = data
             self.indx = indx
 
         if not preserve_caches:
@@ -1517,7 +1517,8 @@ class FieldVariable(Variable):
         data = data.ravel()
         self.indx = slice(0, len(data))
 
-        self.data[step] = data
+        self.data[-step] = data
+        self.invalidate_evaluate_cache(step=step)
 
     def set_from_mesh_vertices(self, data):
         """
@@ -1794,7 +1795,7 @@ class FieldVariable(Variable):
             eq[idof::self.n_components] = self.n_components * nods \
                                           + idof + self.indx.start
 
-        out = self.data[step][eq]
+        out = self.data[-step][eq]
         if reshape:
             out.shape = (len(nods), self.n_components)
 
-- 
2.43.0


From a664c1637b33b966ff2f7c139f7774831dd24bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 67/98] fix: remove outdated items from evaluate cache when
 advancing

With history > 1, data evaluated in step -2 remained in the cache when step -1
was not evaluated.
---
 sfepy/discrete/variables.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 77ec81d..6761fc2 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1231,20 +1231,18 @@ class Variable(Struct):
 
             # Advance evaluate cache.
             for step_cache in self.evaluate_cache.values():
-                steps = sorted(step_cache.keys())
-                for step in steps:
-                    if step is None:
-                        # Special caches with possible custom advance()
-                        # function.
-                        for key, val in step_cache[step].items():
-                            if hasattr(val, '__advance__'):
-                                val.__advance__(ts, val)
-
-                    elif -step < self.history:
-                        step_cache[step-1] = step_cache[step]
-
-                if len(steps) and (steps[0] is not None):
-                    step_cache.pop(steps[-1])
+                steps = [step for step in step_cache if step is not None]
+                if len(steps) < len(step_cache):
+                    # Special caches with possible custom advance() function.
+                    for key, val in step_cache[None].items():
+                        if hasattr(val, '__advance__'):
+                            val.__advance__(ts, val)
+
+                # From the oldest step, nothing remains from the old contents.
+                for step in sorted(steps):
+                    cache = step_cache.pop(step)
+                    if -step < self.history:
+                        step_cache[step-1] = cache
 
     def init_data(self, step=0):
         """
-- 
2.43.0


From d47f1fecb9970ae166a928e8eca79f7c604e7948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:41 +0000
Subject: [PATCH 68/98] fix: invalidate evaluate cache items depending on
 changed data

The time derivative depends on the previous step data and on the time step, the
previous step data are the current data in the initial step.
---
 sfepy/discrete/variables.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sfepy/discrete/variables.py b/sfepy/discrete/variables.py
index 6761fc2..0bebf52 100644
--- a/sfepy/discrete/variables.py
+++ b/sfepy/discrete/variables.py
@@ -1494,6 +1494,11 @@ class FieldVariable(Variable):
         function.
         """
         if ts is not None:
+            if ts.dt != self.dt:
+                # Cached time derivatives depend on the time step.
+                for step in range(-(self.history or 0), 1):
+                    self.invalidate_evaluate_cache(step=step)
+
             self.dt = ts.dt
 
         if hasattr(self, 'special') and ('setter' in self.special):
@@ -1663,9 +1668,15 @@ class FieldVariable(Variable):
         This should be done, for example, prior to every nonlinear
         solver iteration.
         """
+        # The time derivative in the following step depends on the given step.
+        steps = [step, step + 1]
+        if (self.step == 0) and (step == 0):
+            # The current data are used also as the previous step data.
+            steps.append(-1)
+
         for step_cache in self.evaluate_cache.values():
             for key in list(step_cache.keys()):
-                if key == step: # Given time step to clear.
+                if key in steps: # Given time steps to clear.
                     step_cache.pop(key)
 
     def evaluate(self, mode='val',
@@ -1743,6 +1754,8 @@ class FieldVariable(Variable):
         geo, _, key = field.get_mapping(region, integral, integration,
                                         return_key=True)
         key += (time_derivative, trace_region)
+        if time_derivative is not None:
+            key += (dt,)
 
         dct = ('cell' if integration == 'facet_extra' else integration,
                region.tdim)
-- 
2.43.0


From 0940a372964caef782666b15a6490e0bafac40c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:43 +0000
Subject: [PATCH 69/98] fix: respect time history and derivatives of arguments
 in all terms

Several terms used the current vector of DOFs of a variable also for arguments
like u[-1] or du/dt.
---
 sfepy/terms/terms_adj_navier_stokes.py |  6 +++---
 sfepy/terms/terms_contact.py           |  4 ++--
 sfepy/terms/terms_elastic.py           | 12 ++++++------
 sfepy/terms/terms_hyperelastic_tl.py   |  2 +-
 sfepy/terms/terms_navier_stokes.py     |  8 ++++----
 5 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sfepy/terms/terms_adj_navier_stokes.py b/sfepy/terms/terms_adj_navier_stokes.py
index fdfa765..011b9b2 100644
--- a/sfepy/terms/terms_adj_navier_stokes.py
+++ b/sfepy/terms/terms_adj_navier_stokes.py
@@ -143,7 +143,7 @@ class SUPGCAdjStabilizationTerm(Term):
 
         fmode = diff_var is not None
 
-        return state(), val_u, grad_u, mat, vg, conn, fmode
+        return self.get_vector(state), val_u, grad_u, mat, vg, conn, fmode
 
 class SUPGPAdj1StabilizationTerm(Term):
     r"""
@@ -177,7 +177,7 @@ class SUPGPAdj1StabilizationTerm(Term):
 
         fmode = diff_var is not None
 
-        return state(), grad_p, mat, vg_w, conn_w, fmode
+        return self.get_vector(state), grad_p, mat, vg_w, conn_w, fmode
 
 class SUPGPAdj2StabilizationTerm(Term):
     r"""
@@ -213,7 +213,7 @@ class SUPGPAdj2StabilizationTerm(Term):
 
         fmode = diff_var is not None
 
-        return grad_u, state(), mat, vg_u, vg_r, conn_r, fmode
+        return grad_u, self.get_vector(state), mat, vg_u, vg_r, conn_r, fmode
 
 class SDDotTerm(Term):
     r"""
diff --git a/sfepy/terms/terms_contact.py b/sfepy/terms/terms_contact.py
index 56d7256..5195af2 100644
--- a/sfepy/terms/terms_contact.py
+++ b/sfepy/terms/terms_contact.py
@@ -161,7 +161,7 @@ class ContactTerm(Term):
         ci = self.get_contact_info(geo, state)
 
         X = nm.asfortranarray(state.field.coors)
-        Um = nm.asfortranarray(state().reshape((-1, ci.nsd)))
+        Um = nm.asfortranarray(self.get_vector(state).reshape((-1, ci.nsd)))
         xx = nm.asfortranarray(X + Um)
 
         GPs = ci.update(xx)
@@ -379,7 +379,7 @@ class ContactIPCTerm(Term):
 
         collision_mesh = ci.collision_mesh
 
-        uvec = state().reshape((-1, ci.dim))[ci.nods]
+        uvec = self.get_vector(state).reshape((-1, ci.dim))[ci.nods]
 
         vertices = collision_mesh.rest_positions + uvec
         try:
diff --git a/sfepy/terms/terms_elastic.py b/sfepy/terms/terms_elastic.py
index 4640aeb..5520530 100644
--- a/sfepy/terms/terms_elastic.py
+++ b/sfepy/terms/terms_elastic.py
@@ -756,7 +756,7 @@ class ElasticWaveTerm(Term):
             econn = state.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = state()[adc]
+            vals = self.get_vector(state)[adc]
             # Same as nm.einsum('qij,cj->cqi', gmat[0], vals)[..., None]
             aux = dot_sequences(gmat, vals[:, None, :, None])
             out_qp = dot_sequences(gmat, dot_sequences(mat, aux), 'ATB')
@@ -828,7 +828,7 @@ class ElasticWaveCauchyTerm(Term):
             econn = avar.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(avar.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = avar()[adc]
+            vals = self.get_vector(avar)[adc]
 
             if self.mode == 'ge':
                 # Same as aux = self.get(avar, 'cauchy_strain'),
@@ -904,7 +904,7 @@ class LinearSpringTerm(Term):
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
 
-            return mat, state()[adc], diff_var
+            return mat, self.get_vector(state)[adc], diff_var
         else:
             return mat, None, diff_var
 
@@ -1021,7 +1021,7 @@ class LinearTrussTerm(Term):
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
 
-            return mat, state()[adc], mtx_t, length, diff_var
+            return mat, self.get_vector(state)[adc], mtx_t, length, diff_var
         else:
             return mat, None, mtx_t, length, diff_var
 
@@ -1083,7 +1083,7 @@ class LinearTrussInternalForceTerm(Term):
         adc = create_adof_conn(nm.arange(parameter.n_dof, dtype=nm.int32),
                                econn, n_c, 0)
 
-        return mat, parameter()[adc], mtx_t
+        return mat, self.get_vector(parameter)[adc], mtx_t
 
     def get_eval_shape(self, mat, parameter,
                        mode=None, term_mode=None, diff_var=None, **kwargs):
@@ -1181,7 +1181,7 @@ class LinearDSpringTerm(LinearTrussTerm):
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
 
-            return mat, state()[adc], mtx_t, diff_var
+            return mat, self.get_vector(state)[adc], mtx_t, diff_var
         else:
             return mat, None, mtx_t, diff_var
 
diff --git a/sfepy/terms/terms_hyperelastic_tl.py b/sfepy/terms/terms_hyperelastic_tl.py
index 6636c27..abfa341 100644
--- a/sfepy/terms/terms_hyperelastic_tl.py
+++ b/sfepy/terms/terms_hyperelastic_tl.py
@@ -1006,7 +1006,7 @@ class VolumeSurfaceTLTerm(HyperElasticSurfaceTLBase):
         asc = nm.ascontiguousarray
 
         coors0 = parameter.field.get_coor()
-        coors = asc(coors0 + parameter().reshape(coors0.shape))
+        coors = asc(coors0 + self.get_vector(parameter).reshape(coors0.shape))
 
         return coors, fd.det_f, fd.inv_f, bf, sg, asc(sd.econn)
 
diff --git a/sfepy/terms/terms_navier_stokes.py b/sfepy/terms/terms_navier_stokes.py
index 1e47dc7..05136f3 100644
--- a/sfepy/terms/terms_navier_stokes.py
+++ b/sfepy/terms/terms_navier_stokes.py
@@ -500,7 +500,7 @@ class StokesWaveTerm(Term):
             econn = state.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(state.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = state()[adc]
+            vals = self.get_vector(state)[adc]
             aux = dot_sequences(kebf, vals[:, None, :, None])
             out_qp = dot_sequences(kebf, aux, 'ATB')
             fmode = 0
@@ -568,7 +568,7 @@ class StokesWaveDivTerm(Term):
             econn = avar.field.get_econn('cell', self.region)
             adc = create_adof_conn(nm.arange(avar.n_dof, dtype=nm.int32),
                                    econn, n_c, 0)
-            vals = avar()[adc]
+            vals = self.get_vector(avar)[adc]
 
             if self.mode == 'kd':
                 aux = dot_sequences(div_bf, vals[:, None, :, None])
@@ -683,7 +683,7 @@ class PSPGCStabilizationTerm(Term):
         else:
             fmode = 1
 
-        return val_qp, state(), tau, svg, vvg, conn, fmode
+        return val_qp, self.get_vector(state), tau, svg, vvg, conn, fmode
 
 class SUPGPStabilizationTerm(Term):
     r"""
@@ -763,4 +763,4 @@ class SUPGCStabilizationTerm(Term):
         else:
             fmode = 1
 
-        return val_qp, state(), delta, vg, conn, fmode
+        return val_qp, self.get_vector(state), delta, vg, conn, fmode
-- 
2.43.0


From 88a965fe3554b5cf3e70aeaa49238cf271671a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:04 +0000
Subject: [PATCH 70/98] fix: gradient of Bernstein simplex basis on element
 boundary

The terms with a zero exponent were evaluated as 0 * 0**(-1) = NaN.
---
 sfepy/discrete/fem/poly_spaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/discrete/fem/poly_spaces.py b/sfepy/discrete/fem/poly_spaces.py
index 2e58273..b8baef4 100644
--- a/sfepy/discrete/fem/poly_spaces.py
+++ b/sfepy/discrete/fem/poly_spaces.py
@@ -1159,6 +1159,8 @@ class BernsteinSimplexPolySpace(FEPolySpace):
                     dval = 0.0
                     for ib in range(dim + 1):
                         ex = node[ib]
+                        if ex == 0: continue
+
                         val = coef
                         for im in range(dim + 1):
                             if ib == im:
-- 
2.43.0


From f73009335ce55b72c0a607631a12d1ae4f39e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 71/98] fix: average force LCBC with default weights and no
 rotation DOFs

The default weights have also the rotation components.
---
 sfepy/discrete/fem/lcbc_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 6389522..2b6455a 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -314,7 +314,7 @@ class AverageForceOperator(LCBCOperator):
 
         else:
             # As above, but S = I(dim) -> simplified code.
-            mtx_ws = (nm.eye(dim) * sweights[..., None])
+            mtx_ws = (nm.eye(dim) * sweights[:, :dim, None])
             mtx_ix = mtx_ws.sum(axis=0)
             mtx_x = nm.linalg.inv(mtx_ix)
 
-- 
2.43.0


From aafa2c73693b5a749161b99f5dde31cd130d4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 72/98] fix: axial translation in rigid twist LCBC

The thread was added to all components of the spin matrix instead of
moving the nodes along the axis.
---
 sfepy/discrete/fem/lcbc_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 2b6455a..eb60938 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -423,8 +423,8 @@ class RigidTwistOperator(MRLCBCOperator):
         mtx_mr = _create_spin_matrix(mr).reshape((n_mnod * dim, -1))
         mtx_sr = _create_spin_matrix(sr).reshape((n_snod * dim, -1))
 
-        mtx_mw = -0.5 * (mtx_mr + thread) @ self.axis
-        mtx_sw = 0.5 * (mtx_sr + thread) @ self.axis
+        mtx_mw = -0.5 * (mtx_mr + thread * mtx_me) @ self.axis
+        mtx_sw = 0.5 * (mtx_sr + thread * mtx_se) @ self.axis
 
         mtx = nm.vstack((
             nm.hstack((mtx_me, mtx_mr, mtx_mw[:, None])),
-- 
2.43.0


From 9ec6d775d685fc32b0572b5dac0ce41b54799ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 73/98] fix: rigid LCBC with some components only

The rigid body motions not influencing the constrained components lead to
a singular matrix.
---
 sfepy/discrete/fem/lcbc_operators.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index eb60938..89d59b0 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -133,7 +133,6 @@ class RigidOperator(MRLCBCOperator):
 
         coors = self.field.get_coor(self.mdofs)
         n_nod, dim = coors.shape
-        n_rigid_dof = dim2sym(dim)
 
         mtx_e = nm.tile(nm.eye(dim, dtype=nm.float64), (n_nod, 1))
         mtx_r = _create_spin_matrix(coors).reshape((n_nod * dim, -1))
@@ -141,12 +140,16 @@ class RigidOperator(MRLCBCOperator):
 
         # Strip unconstrained dofs.
         aux = dim * nm.arange(n_nod)
-        indx = [aux + self.all_dof_names.index(dof) for dof in self.dof_names]
-        indx = nm.array(indx).T.ravel()
+        ids = [self.all_dof_names.index(dof) for dof in self.dof_names]
+        indx = nm.array([aux + ii for ii in ids]).T.ravel()
+
+        # Strip rigid body dofs not influencing the constrained dofs.
+        spin = _create_spin_matrix(nm.ones((1, dim), dtype=nm.float64))[0]
+        used = nm.hstack((spin, nm.eye(dim)))[ids].any(axis=0)
 
         self.n_mdof = n_nod * len(self.dof_names)
-        self.n_new_dof = n_rigid_dof
-        self.mtx = self.mtx[indx]
+        self.n_new_dof = used.sum()
+        self.mtx = self.mtx[indx][:, used]
 
 class Rigid2Operator(LCBCOperator):
     r"""
-- 
2.43.0


From bd43b372f1cad433185e35120fd0d90fcaa9a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 74/98] fix: nodal combination LCBC with DOFs not present in
 constraints

The DOFs not present in the constraints were set to zero, and the
coefficients were mixed up for constraints with different DOFs.
---
 sfepy/discrete/fem/lcbc_operators.py | 46 +++++++---------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index 89d59b0..d64dc33 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -688,48 +688,24 @@ class NodalLCOperator(MRLCBCOperator):
 
             assert_(len(sol) == n_ceq)
 
-            imasters = []
-            ifixed = []
-            islaves = set()
-            ccs = []
-            for key, _poly in sol.items():
-                imaster = int(key.name[1:])
-                imasters.append(imaster)
-
-                if not isinstance(_poly, sm.Float):
-                    poly = _poly.as_poly()
-
-                    # Workaround for poly.all_coeffs() not applicable to
-                    # multivariate polynomials.
-                    coefs = []
-                    for ii, uu in enumerate(us):
-                        if poly.has(uu):
-                            coefs.append(poly.coeff_monomial(uu))
-                            islaves.add(ii)
-                    coefs.append(poly.TC())
-                    ccs.append(coefs)
-
-                else: # Degenerated constraint - fixed master.
-                    ifixed.append(imaster)
-                    ccs.append([float(_poly)])
-
-            islaves = sorted(islaves)
-
-            for ii, imaster in enumerate(imasters):
-                coefs = ccs[ii]
+            imasters = [int(key.name[1:]) for key in sol.keys()]
+            # All the remaining DOFs are slaves.
+            islaves = sorted(set(range(dpn)).difference(imasters))
 
-                em = dpn * im + imaster
-                rhss[em] = coefs[-1]
+            for imaster, _poly in zip(imasters, sol.values()):
+                poly = sm.Poly(_poly, *us)
 
-                if imaster in ifixed: continue
+                em = dpn * im + imaster
+                rhss[em] = float(poly.coeff_monomial(1))
 
                 # Master DOF is expressed in terms of slave DOFs.
                 for ii, islave in enumerate(islaves):
-                    es = ii + n_new
+                    coef = float(poly.coeff_monomial(us[islave]))
+                    if coef == 0: continue # E.g. fixed master.
 
                     rows.append(em)
-                    cols.append(es)
-                    data.append(coefs[ii])
+                    cols.append(ii + n_new)
+                    data.append(coef)
 
             # Slave DOFs are copied.
             for ii, islave in enumerate(islaves):
-- 
2.43.0


From f7d31a142ecb848916954c190bbbd37071c3181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:07 +0000
Subject: [PATCH 75/98] fix: model-reduction LCBCs in regions with periodic
 DOFs

The equation numbers and the number of the new DOFs were not updated
according to the reduced operator matrix.
---
 sfepy/discrete/fem/lcbc_operators.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sfepy/discrete/fem/lcbc_operators.py b/sfepy/discrete/fem/lcbc_operators.py
index d64dc33..ca8aa9a 100644
--- a/sfepy/discrete/fem/lcbc_operators.py
+++ b/sfepy/discrete/fem/lcbc_operators.py
@@ -84,19 +84,21 @@ class MRLCBCOperator(LCBCOperator):
         master = nm.intersect1d(dofs, master)
         if len(master) == 0: return
 
-        # Remove rows with master DOFs.
-        remove = nm.searchsorted(nm.sort(dofs), master)
-        keep = nm.setdiff1d(nm.arange(len(dofs)), remove)
+        # Remove rows with repeated equations of periodic DOFs.
+        keep = nm.sort(nm.unique(self.ameq, return_index=True)[1])
+        self.ameq = self.ameq[keep]
 
         mtx = self.mtx[keep]
+        if isinstance(mtx, sp.sparray):
+            # Remove empty columns.
+            mtx = mtx.tocsc()
+            mtx = mtx[:, nm.where(nm.diff(mtx.indptr) > 0)[0]]
 
-        # Remove empty columns, update new DOF count.
-        mtx = mtx.tocsc()
-        indptr = nm.unique(mtx.indptr)
-        self.mtx = sp.csc_array((mtx.data, mtx.indices, indptr),
-                                shape=(mtx.shape[0], indptr.shape[0] - 1))
-        self.n_mdof = self.mtx.shape[0]
-        self.n_dof_new = self.mtx.shape[1]
+        # Update DOF counts.
+        self.mtx = mtx
+        self.n_mdof, self.n_new_dof = mtx.shape
+        if self.get('rhs', None) is not None:
+            self.rhs = self.rhs[keep]
 
 def _create_spin_matrix(coors):
     n_nod, dim = coors.shape
-- 
2.43.0


From 8aa0c4624ba5e6103f11885c470fa1e9b250004a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:38 +0000
Subject: [PATCH 76/98] fix: MomentLimiter2D: limit also the neighbours of the
 cell 0

The cell index 0 was taken for a missing neighbour (-1), so that the cells
sharing a facet with the first cell were never limited.
---
 sfepy/discrete/dg/limiters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/dg/limiters.py b/sfepy/discrete/dg/limiters.py
index 5f6547f..2df4105 100644
--- a/sfepy/discrete/dg/limiters.py
+++ b/sfepy/discrete/dg/limiters.py
@@ -163,7 +163,7 @@ class MomentLimiter2D(DGLimiter):
         ex = self.extended
 
         nbrhd_idx = self.field.get_facet_neighbor_idx()
-        inner_mask = nbrhd_idx[:, :,  0] > 0
+        inner_mask = nbrhd_idx[:, :, 0] >= 0
         idx = nm.where(inner_mask.prod(axis=1))[0]
         nbrhd_idx = nbrhd_idx[:, :, 0]
 
-- 
2.43.0


From 6d1532949679ba62964f9e33702908353343ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:38 +0000
Subject: [PATCH 77/98] fix: RK4StepSolver: fix the sign of the stage vector in
 the stage rates

The time derivative is stage_vec - vec_dx, as in the other explicit solvers.
---
 sfepy/solvers/ts_dg_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index 855d732..d114549 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -307,7 +307,7 @@ class RK4StepSolver(DGMultiStageTSS):
             if self.verbose:
                 output(self.stage_format.format(stage, lerr))
 
-            vec_x = - vec_dx - stage_vec
+            vec_x = - (vec_dx - stage_vec)
 
             vec_x = self.post_stage_hook(vec_x)
 
-- 
2.43.0


From c4d81d24ec6b2064c1815d39afb246a0c46b0f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:38 +0000
Subject: [PATCH 78/98] fix: TVDRK3StepSolver: restore the step time after the
 last stage

The time seen by poststep_fun() was shifted by a half of the time step.
---
 sfepy/solvers/ts_dg_solvers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/solvers/ts_dg_solvers.py b/sfepy/solvers/ts_dg_solvers.py
index d114549..46c6efe 100644
--- a/sfepy/solvers/ts_dg_solvers.py
+++ b/sfepy/solvers/ts_dg_solvers.py
@@ -243,6 +243,8 @@ class TVDRK3StepSolver(DGMultiStageTSS):
                             eps_a=eps_a, eps_r=eps_r, mtx=mtx_a,
                             status=ls_status)
 
+        ts.restore_step_time()
+
         vec_x3 = (vec_x + 2 * vec_x2 - 2 * ts.dt * (vec_dx - vec_x2)) / 3
 
         if self.verbose:
-- 
2.43.0


From f121e87b49fa5fd32ae5e8a442d073cfa2d38c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:30 +0000
Subject: [PATCH 79/98] fix: DGField: fix order of boundary gradient values in
 facet quadrature points

The quadrature points (the last axis) are to be flipped. For gradients, the
components were swapped instead.
---
 sfepy/discrete/dg/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index 26701c9..eda64ba 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -758,7 +758,7 @@ class DGField(FEField):
             else:
                 #  fix flipping qp order to accomodate for
                 #  opposite facet orientation of neighbours
-                outer_facet_vals[ebc[:, 0], ebc[:, 1], :] = ebc_vals[:, ::-1]
+                outer_facet_vals[ebc[:, 0], ebc[:, 1], :] = ebc_vals[..., ::-1]
 
         # flip outer_facet_vals moved to get_both_facet_basis_vals
         return inner_facet_vals, outer_facet_vals, whs
-- 
2.43.0


From 694d414b1a12997da76d8af18e6fd58a0e71bf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:21 +0000
Subject: [PATCH 80/98] fix: DGField: facet gradients w.r.t. physical
 coordinates

The gradients of the basis and the state in facet quadrature points used in
the diffusion flux were w.r.t. the reference element coordinates, so that the
flux was wrong for cells that are not unit squares (intervals, triangles).
---
 sfepy/discrete/dg/fields.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/dg/fields.py b/sfepy/discrete/dg/fields.py
index eda64ba..ed352d9 100644
--- a/sfepy/discrete/dg/fields.py
+++ b/sfepy/discrete/dg/fields.py
@@ -805,8 +805,9 @@ class DGField(FEField):
         outer_facet_basis_vals = nm.zeros(basis_shape)
 
         if derivative:
-            inner_facet_basis_vals[:] = facet_bf[0, :, 0, :, :, :]\
-                                                            .swapaxes(-2, -3).T
+            inner_facet_basis_vals[:] = \
+                nm.einsum('qfkd,cfqkj->cdfjq', facet_bf[0, :, 0],
+                          self._get_facet_inverse_jacobians())
         else:
             inner_facet_basis_vals[:] = facet_bf[:, 0, :, 0, :].T
 
@@ -816,7 +817,8 @@ class DGField(FEField):
         # indexing before remaining shape
         if derivative:
             outer_facet_basis_vals[:] = \
-                inner_facet_basis_vals[0, :, per_facet_neighbours[:, :, 1]]\
+                inner_facet_basis_vals[per_facet_neighbours[:, :, 0], :,
+                                       per_facet_neighbours[:, :, 1]]\
                     .swapaxes(-3, -4)
         else:
             outer_facet_basis_vals[:] = \
@@ -826,6 +828,24 @@ class DGField(FEField):
         # fix to flip facet QPs for right integration order
         return inner_facet_basis_vals, outer_facet_basis_vals[..., ::-1], whs
 
+    def _get_facet_inverse_jacobians(self):
+        """
+        Returns the inverse Jacobi matrices of the reference element mapping in
+        the facet quadrature points of all cells.
+
+        Returns
+        -------
+        ijac : ndarray
+            In shape (n_cell, n_el_facets, n_qp, dim, dim), the reference
+            coordinates are in the second to last axis.
+        """
+        qps, _ = self.get_facet_qp()
+        bfg = nm.stack([self.geom_poly_space.eval_basis(qp.copy(), diff=1)
+                        for qp in qps[:, 0].swapaxes(0, 1)])
+        jac = nm.einsum('fqkv,cvj->cfqjk', bfg,
+                        self.mapping.coors[self.mapping.conn])
+        return nm.linalg.inv(jac)
+
     def clear_normals_cache(self, region=None):
         """Clears normals cache for given region or all regions.
 
-- 
2.43.0


From cf7bca8b2d51dabd3bbf14a0fb0870e253de22a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:22 +0000
Subject: [PATCH 81/98] fix: DG examples: fix signs of the diffusion fluxes in
 the implicit schemes

---
 sfepy/examples/dg/example_dg_common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/examples/dg/example_dg_common.py b/sfepy/examples/dg/example_dg_common.py
index 2699282..3737833 100644
--- a/sfepy/examples/dg/example_dg_common.py
+++ b/sfepy/examples/dg/example_dg_common.py
@@ -14,13 +14,13 @@ from sfepy.mesh.mesh_generators import gen_block_mesh
 
 diffusion_schemes_implicit = {
     "symmetric":
-          " + dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
-        + " + dw_dg_diffusion_flux.i.Omega(D.val, v, p)",
-    "non-symmetric":
-          " + dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
+          " - dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
         + " - dw_dg_diffusion_flux.i.Omega(D.val, v, p)",
+    "non-symmetric":
+          " - dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
+        + " + dw_dg_diffusion_flux.i.Omega(D.val, v, p)",
     "incomplete":
-        " + dw_dg_diffusion_flux.i.Omega(D.val, p, v)"}
+        " - dw_dg_diffusion_flux.i.Omega(D.val, p, v)"}
 
 diffusion_schemes_explicit = {
     "symmetric":
-- 
2.43.0


From e15463e55a5282a25f358983bdc5a76f65b400b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 82/98] fix: centre of cylinder meshes with axis y or z and of
 2D annular meshes

---
 sfepy/mesh/mesh_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index d6490cd..1c231ef 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -179,7 +179,7 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
         nl = 1
         is_2d_topo = True
 
-    origin = centre - nm.array([0.5 * length, 0.0, 0.0])
+    origin = nm.array([-0.5 * length, 0.0, 0.0])
 
     dfi = 2.0 * (nm.pi - open_angle) / nfi
     if is_open:
@@ -286,6 +286,7 @@ def gen_cylinder_mesh(dims, shape, centre, axis='x', force_hollow=False,
         coors = coors[:,[1,2,0]]
     elif axis == 'y':
         coors = coors[:,[2,0,1]]
+    coors = coors + centre[:coors.shape[1]]
 
     mesh = Mesh.from_data(name, coors, None, [conn], [mat_id], [desc])
     return mesh
-- 
2.43.0


From cacd30ef15d3a94f4e365dc1b9d030f533d533eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 83/98] fix: meshes from non-square voxel arrays

---
 sfepy/mesh/mesh_generators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index 1c231ef..cadb0a6 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -758,6 +758,8 @@ def gen_mesh_from_voxels(voxels, dims, etype='q'):
     dims = nm.array(dims).squeeze()
     dim = len(dims)
     nddims = nm.array(voxels.shape) + 2
+    # The first two axes are swapped below.
+    nddims[:2] = nddims[1::-1]
 
     nodemtx = nm.zeros(nddims, dtype=nm.int32)
 
-- 
2.43.0


From 2753ff85fb9b4c01547ca20b1c46f2007df5b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 84/98] fix: default grading of extended block meshes with thin
 or single-layer extensions

---
 sfepy/mesh/mesh_generators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_generators.py b/sfepy/mesh/mesh_generators.py
index cadb0a6..03f8028 100644
--- a/sfepy/mesh/mesh_generators.py
+++ b/sfepy/mesh/mesh_generators.py
@@ -394,7 +394,9 @@ def gen_extended_block_mesh(b_dims, b_shape, e_dims, e_shape, centre,
     # The "first x" going to grading_fun.
     nc = 1.0 / (e_shape - 1)
     # Grading power and function.
-    power = nm.log(dd.min() / pe_dims.min()) / nm.log(nc)
+    power = 1.0 # If the required element size cannot be attained.
+    if (e_shape > 2) and (dd.min() < pe_dims.min()):
+        power = nm.log(dd.min() / pe_dims.min()) / nm.log(nc)
     grading_fun = (lambda x: x**power) if grading_fun is None else grading_fun
 
     # Central block mesh.
-- 
2.43.0


From 2756b5852d373db005e8449a67f349108b601556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 85/98] fix: volume correction in smooth_mesh()

---
 sfepy/mesh/mesh_tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 2c1ef9f..6480cae 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -140,7 +140,7 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
         if etype == '2_4' or etype == '3_8':
             el = elems_q2t(el)
 
-        nel = el.shape[0]
+        nel, nnd = el.shape
 
         #bc = nm.zeros((dim, ), dtype=nm.double)
         mul = 1.0 / factorial(dim)
@@ -208,10 +208,11 @@ def smooth_mesh(mesh, n_iter=4, lam=0.6307, mu=-0.6347,
     if volume_corr:
         output('rescaling...')
         timer.start()
-        volume0, bc = get_volume(mesh.conns[0], mesh.coors)
-        volume, _ = get_volume(mesh.conns[0], coors)
+        conn = mesh.get_conn(mesh.descs[0])
+        volume0, bc = get_volume(conn, mesh.coors)
+        volume, _ = get_volume(conn, coors)
 
-        scale = volume0 / volume
+        scale = (volume0 / volume)**(1.0 / mesh.dim)
         output('scale factor: %.2f' % scale)
 
         coors = (coors - bc) * scale + bc
-- 
2.43.0


From cf6bf804923129af8650c5ba142d971ca70877e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 86/98] fix: cell groups of tetrahedra in extruded mixed meshes

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index 6480cae..e752085 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -689,7 +689,7 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
                     econns1[1::3] = econns[:, [0, 1, 5, 4]]
                     econns1[2::3] = econns[:, [0, 4, 5, 3]]
                     econns = econns1
-                    emat_ids = nm.repeat(mat_ids, 3)
+                    emat_ids = nm.repeat(emat_ids, 3)
 
             new_conns.append(econns)
             new_mat_ids.append(emat_ids)
-- 
2.43.0


From f5de6b33dce6910761d5edbd005e471db2e9eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 87/98] fix: conforming tetrahedra in extruded triangular
 meshes

---
 sfepy/mesh/mesh_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index e752085..e72e8ea 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -683,11 +683,18 @@ def extrude(mesh, cline, twist=None, scale=None, nvec=None,
             emat_ids = mat_ids[cidxs]
             if econns.shape[1] == 6:
                 if wedge_to_tetra:  # wedges -> 3 x tetrahedron
+                    # Ordered vertices are needed for a conforming mesh.
+                    ii = nm.argsort(conns, axis=1)
+                    flip = nm.linalg.det(nm.eye(3)[ii]) < 0.0
+                    econns = nm.take_along_axis(econns, nm.c_[ii, ii + 3],
+                                                axis=1)
                     econns1 = nm.empty((3* econns.shape[0], 4),
                                        dtype=econns.dtype)
                     econns1[0::3] = econns[:, [0, 1, 2, 5]]
                     econns1[1::3] = econns[:, [0, 1, 5, 4]]
                     econns1[2::3] = econns[:, [0, 4, 5, 3]]
+                    flip = nm.repeat(flip, 3)
+                    econns1[flip] = econns1[flip][:, [1, 0, 2, 3]]
                     econns = econns1
                     emat_ids = nm.repeat(emat_ids, 3)
 
-- 
2.43.0


From 1f1b7f56a29760ada8dfa7e6928e7d8120bb47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 88/98] fix: revolving around an axis given by a non-unit
 vector

---
 sfepy/mesh/mesh_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index e72e8ea..f670158 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -808,7 +808,7 @@ def revolve(mesh, nphi, p, v=(1, 0, 0), phi_max=None, wedge_to_tetra=True):
         phi = nm.linspace(0, nm.deg2rad(phi_max), nphi + 1)
 
     p = nm.array(p)[None, :]
-    v = nm.array(v)
+    v = nm.array(v) / nm.linalg.norm(v)
 
     coors = mesh.coors
     ccoor = nm.mean(coors, axis=0)
-- 
2.43.0


From d4c5c46f05db624697f7613260270c39cf6df5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 89/98] fix: mirroring meshes with wedges

---
 sfepy/mesh/mesh_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sfepy/mesh/mesh_tools.py b/sfepy/mesh/mesh_tools.py
index f670158..f8d6560 100644
--- a/sfepy/mesh/mesh_tools.py
+++ b/sfepy/mesh/mesh_tools.py
@@ -853,6 +853,7 @@ def mirror(mesh, p, v):
         '2_3': nm.array([1, 0, 2]),
         '2_4': nm.array([1, 0, 3, 2]),
         '3_4': nm.array([1, 0, 2, 3]),
+        '3_6': nm.array([1, 0, 2, 4, 3, 5]),
         '3_8': nm.array([1, 0, 3, 2, 5, 4, 7, 6]),
     }
     coors = mesh.coors
-- 
2.43.0


From 659d32892f4a5579c8a04cfbbdb5f4230e53cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 90/98] fix: refinement of 1D meshes with unordered cells

---
 sfepy/discrete/fem/refine.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sfepy/discrete/fem/refine.py b/sfepy/discrete/fem/refine.py
index 1053ec7..2d876cf 100644
--- a/sfepy/discrete/fem/refine.py
+++ b/sfepy/discrete/fem/refine.py
@@ -16,13 +16,17 @@ def refine_1_2(mesh_in):
 
     cmesh = mesh_in.cmesh
     c_centres = cmesh.get_centroids(cmesh.tdim)
+
+    # Indices of the left vertices of the cells.
+    ic = mesh_in.get_conn('1_2').min(axis=1).astype(nm.uint32)
+    if not nm.all(nm.sort(ic) == nm.arange(mesh_in.n_nod - 1)):
+        raise ValueError("1D Mesh for refinement must be a single interval")
+
     new_coors = nm.zeros((2*mesh_in.n_nod - 1, 1))
     new_coors[0::2] = mesh_in.coors
-    new_coors[1::2] = c_centres
-
-    n_nod = len(new_coors)
+    new_coors[2*ic + 1] = c_centres
 
-    new_conn = nm.arange(n_nod, dtype=nm.uint32).repeat(2)[1:-1].reshape((-1, 2))
+    new_conn = nm.c_[2*ic, 2*ic + 1, 2*ic + 1, 2*ic + 2].reshape((-1, 2))
 
     new_mat_id = cmesh.cell_groups.repeat(2)
 
-- 
2.43.0


From cbde5778cb8cf3295dba50dcbcffba34785c2a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:19 +0000
Subject: [PATCH 91/98] fix: hanging edges of further refinement steps

---
 sfepy/discrete/fem/refine_hanging.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index 3106b19..d248bf2 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -322,9 +322,8 @@ def refine(domain0, refine, subs=None, ret_sub_cells=False):
 
             subsf = nm.r_[subsf, subs1f]
 
-            if len(subse):
-                if len(subs1e):
-                    subse = nm.r_[subse, subs1e]
+            if len(subs1e):
+                subse = nm.r_[subse, subs1e] if len(subse) else subs1e
 
             subs = (subsf, subse)
 
-- 
2.43.0


From cd17f1d3fab0d59957b19c8422b061439400ccc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:20 +0000
Subject: [PATCH 92/98] fix: refinement of cells that share only vertices with
 coarse cells

find_level_interface() failed with IndexError when all coarse neighbours of the
refined cells of a 3D mesh were vertex-only neighbours.
---
 sfepy/discrete/fem/refine_hanging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/discrete/fem/refine_hanging.py b/sfepy/discrete/fem/refine_hanging.py
index d248bf2..4ffcf35 100644
--- a/sfepy/discrete/fem/refine_hanging.py
+++ b/sfepy/discrete/fem/refine_hanging.py
@@ -137,7 +137,7 @@ def find_level_interface(domain, refine_flag):
                 nnn.append((nn[ii, 0], nn[ii, 1], 1))
         nnn = nm.array(nnn)
 
-        if nnn.shape[0] == 0:
+        if ov == 0:
             facets = nm.zeros((0, 3), dtype=nm.uint32)
             cells = nm.zeros((0, 4), dtype=nm.uint32)
 
-- 
2.43.0


From 611e3883d6be1f049112ac89f5458a7aac93fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:17 +0000
Subject: [PATCH 93/98] fix: reference coordinates of extrapolated points in
 refc_find_ref_coors()

The reference coordinates of the last candidate cell were returned with the
closest cell, so that evaluate_at() extrapolated from a wrong place.
---
 sfepy/discrete/common/extmods/refcoors.c | 32 +++++++++++++-----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/sfepy/discrete/common/extmods/refcoors.c b/sfepy/discrete/common/extmods/refcoors.c
index 47373ba..82fa7e2 100644
--- a/sfepy/discrete/common/extmods/refcoors.c
+++ b/sfepy/discrete/common/extmods/refcoors.c
@@ -390,12 +390,12 @@ int32 refc_find_ref_coors(FMField *ref_coors,
 {
   BasisContext *ctx = (BasisContext *) _ctx;
 
-  int32 ip, ic, ii, imin, ok, xi_ok, ret = RET_OK;
+  int32 ip, ic, ii, imin, ok, xi_ok, xi_ok_min, ret = RET_OK;
   int32 D = mesh->topology->max_dim;
   int32 nc = mesh->geometry->dim;
   float64 d_min, dist;
   float64 *mesh_coors = mesh->geometry->coors;
-  float64 buf3[3];
+  float64 buf3[3], xi_min[3];
   FMField point[1], e_coors[1], xi[1];
   Indices cell_vertices[1];
   MeshEntity cell_ent[1];
@@ -423,7 +423,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
       continue;
     }
 
-    ok = xi_ok = 0;
+    ok = xi_ok = xi_ok_min = 0;
     d_min = 1e10;
     imin = candidates[offsets[ip]];
 
@@ -438,18 +438,20 @@ int32 refc_find_ref_coors(FMField *ref_coors,
                       ctx->e_coors_max->val);
       xi_ok = ctx->get_xi_dist(&dist, xi, point, e_coors, ctx);
 
-      if (xi_ok) {
-        if (dist < qp_eps) {
-          imin = cell_ent->ii;
-          ok = 1;
-          break;
-        } else if (dist < d_min) {
-          d_min = dist;
-          imin = cell_ent->ii;
-        }
-      } else if (dist < d_min) {
+      if (xi_ok && (dist < qp_eps)) {
+        ok = 1;
+      }
+      // Keep the reference coordinates together with the closest cell.
+      if (ok || (dist < d_min) || (ic == offsets[ip])) {
         d_min = dist;
         imin = cell_ent->ii;
+        xi_ok_min = xi_ok;
+        for (ii = 0; ii < nc; ii++) {
+          xi_min[ii] = xi->val[ii];
+        }
+      }
+      if (ok) {
+        break;
       }
     }
     /* output("-> %d %d %d %.3e\n", imin, xi_ok, ok, d_min); */
@@ -457,7 +459,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     cells[ip] = imin;
 
     if (ok != 1) {
-      if (!xi_ok) {
+      if (!xi_ok_min) {
         status[ip] = 4;
       } else if (allow_extrapolation) {
         if (sqrt(d_min) < close_limit) {
@@ -473,7 +475,7 @@ int32 refc_find_ref_coors(FMField *ref_coors,
     }
 
     for (ii = 0; ii < nc; ii++) {
-      ref_coors->val[nc*ip+ii] = xi->val[ii];
+      ref_coors->val[nc*ip+ii] = xi_min[ii];
     }
     ERR_CheckGo(ret);
   }
-- 
2.43.0


From f51fc31b1b1af312fecde79f27f92c76b0b6e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:18 +0000
Subject: [PATCH 94/98] fix: derivatives of 8-node contact segment shape
 functions

sfd8() stored the derivatives of the functions 7, 8 w.r.t. s in place of those
w.r.t. r.
---
 sfepy/mechanics/extmods/contres.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/mechanics/extmods/contres.c b/sfepy/mechanics/extmods/contres.c
index 96d44f0..3f389bd 100644
--- a/sfepy/mechanics/extmods/contres.c
+++ b/sfepy/mechanics/extmods/contres.c
@@ -108,8 +108,8 @@ void sfd8(float64* H, float64* dH, float64 r, float64 s) {
   dH[3] = h4r;
   dH[4] = h5r;
   dH[5] = h6r;
-  dH[6] = h7s;
-  dH[7] = h8s;
+  dH[6] = h7r;
+  dH[7] = h8r;
 
   dH[8]  = h1s;
   dH[9]  = h2s;
-- 
2.43.0


From 688151aeeee14b3189a2eee98016894199c20afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:18 +0000
Subject: [PATCH 95/98] fix: do not truncate the longest edge in get_AABB()

---
 sfepy/mechanics/extmods/ccontres.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sfepy/mechanics/extmods/ccontres.pyx b/sfepy/mechanics/extmods/ccontres.pyx
index 9200b18..c670297 100644
--- a/sfepy/mechanics/extmods/ccontres.pyx
+++ b/sfepy/mechanics/extmods/ccontres.pyx
@@ -70,7 +70,7 @@ def get_longest_edge_and_gps(
 
 def get_AABB(
     np.ndarray[float64, mode='fortran', ndim=2] X not None,
-    int longestEdge,
+    float64 longestEdge,
     np.ndarray[int32, mode='c', ndim=2] IEN not None,
     np.ndarray[int32, mode='c', ndim=2] ISN not None,
     np.ndarray[uint32, mode='c', ndim=1] elementID not None,
-- 
2.43.0


From e51b80aaaee3f4ea41dacbab964e8318a38faeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:18 +0000
Subject: [PATCH 96/98] fix: reading outside of the coordinates of 2-node
 contact segments

---
 sfepy/mechanics/extmods/contres.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sfepy/mechanics/extmods/contres.c b/sfepy/mechanics/extmods/contres.c
index 3f389bd..0cc1493 100644
--- a/sfepy/mechanics/extmods/contres.c
+++ b/sfepy/mechanics/extmods/contres.c
@@ -911,18 +911,16 @@ void evaluateContactConstraints(float64* GPs, int32* ISN, int32* IEN, int32* N,
 		  s_len = 0, s = 0;
 		  switch (nsn) {
 		  case 2:
-		    // Tangent vectors parallel with element edges 1 and 2:
-		    // Component: X     Y      Z
-		    // Node 1:  Xm[0] Xm[2]  Xm[4]
-		    // Node 2:  Xm[1] Xm[3]  Xm[5]
+		    // Tangent vector parallel with the element edge (2D only):
+		    // Component: X     Y
+		    // Node 1:  Xm[0] Xm[2]
+		    // Node 2:  Xm[1] Xm[3]
 
 		    r_len = pow(Xm[1] - Xm[0], 2.0) +
-		      pow(Xm[3] - Xm[2], 2.0) +
-		      pow(Xm[5] - Xm[4], 2.0);
+		      pow(Xm[3] - Xm[2], 2.0);
 
 		    r = ((Xp[0] - Xm[0])  * (Xm[1] - Xm[0]) +
-			 (Xp[1] - Xm[2])  * (Xm[3] - Xm[2]) +
-			 (Xp[2] - Xm[4])  * (Xm[5] - Xm[4])) / r_len;
+			 (Xp[1] - Xm[2])  * (Xm[3] - Xm[2])) / r_len;
 		    r = 2*r-1;
 		    break;
 		  case 6:
-- 
2.43.0


From cbc29a1271fc3ce78c4517df7208d75e2e27c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:18 +0000
Subject: [PATCH 97/98] fix: uninitialized third components in the contact gap
 in 2D

---
 sfepy/mechanics/extmods/contres.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sfepy/mechanics/extmods/contres.c b/sfepy/mechanics/extmods/contres.c
index 0cc1493..6c30082 100644
--- a/sfepy/mechanics/extmods/contres.c
+++ b/sfepy/mechanics/extmods/contres.c
@@ -248,8 +248,8 @@ void assembleContactResidualAndStiffness(float64* Gc, float64* vals, int32* rows
   float64* C_m = alloc_mem(float64, nsn*nsd);
   float64* Hm = alloc_mem(float64, nsn);
   float64* dHm = alloc_mem(float64, nsn*npd);
-  float64 Xp[3];
-  float64 Xg[3];
+  float64 Xp[3] = {0.0, 0.0, 0.0};
+  float64 Xg[3] = {0.0, 0.0, 0.0};
   int els, elm, sgs, sgm, IENrows, IENrowm;
   int len_guess = *len;
   float64 r, s, dh;
-- 
2.43.0


From 83cd2ccbc5105673cc98d4b5801358533c74af38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:48 +0000
Subject: [PATCH 98/98] Revert "fix: DG examples: fix signs of the diffusion
 fluxes in the implicit schemes" (example files are left as they were)

---
 sfepy/examples/dg/example_dg_common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sfepy/examples/dg/example_dg_common.py b/sfepy/examples/dg/example_dg_common.py
index 3737833..2699282 100644
--- a/sfepy/examples/dg/example_dg_common.py
+++ b/sfepy/examples/dg/example_dg_common.py
@@ -14,13 +14,13 @@ from sfepy.mesh.mesh_generators import gen_block_mesh
 
 diffusion_schemes_implicit = {
     "symmetric":
-          " - dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
-        + " - dw_dg_diffusion_flux.i.Omega(D.val, v, p)",
-    "non-symmetric":
-          " - dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
+          " + dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
         + " + dw_dg_diffusion_flux.i.Omega(D.val, v, p)",
+    "non-symmetric":
+          " + dw_dg_diffusion_flux.i.Omega(D.val, p, v)"
+        + " - dw_dg_diffusion_flux.i.Omega(D.val, v, p)",
     "incomplete":
-        " - dw_dg_diffusion_flux.i.Omega(D.val, p, v)"}
+        " + dw_dg_diffusion_flux.i.Omega(D.val, p, v)"}
 
 diffusion_schemes_explicit = {
     "symmetric":
-- 
2.43.0

