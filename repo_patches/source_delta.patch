From c0539589c15cab8550487c65cf5d4eacec6a4df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:47 +0000
Subject: [PATCH 01/18] fix: outer outflow boundary copies the normal face
 field from the boundary face

The inner outflow conditions copy the boundary face (is/js/ks) into the ghost
faces, the outer ones copied the last interior face (ie/je/ke) instead of the
boundary face (ie+1/je+1/ke+1), so a mirrored MHD problem evolved differently
and the ghost zone had a jump in the normal field at the boundary.
---
 src/bvals_mhd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bvals_mhd.c b/src/bvals_mhd.c
index f1218d4..00ffac0 100644
--- a/src/bvals_mhd.c
+++ b/src/bvals_mhd.c
@@ -1391,7 +1391,7 @@ static void outflow_ox1(GridS *pGrid)
   for (k=ks; k<=ke; k++) {
     for (j=js; j<=je; j++) {
       for (i=2; i<=nghost; i++) {
-        pGrid->B1i[k][j][ie+i] = pGrid->B1i[k][j][ie];
+        pGrid->B1i[k][j][ie+i] = pGrid->B1i[k][j][ie+1];
       }
     }
   }
@@ -1508,7 +1508,7 @@ static void outflow_ox2(GridS *pGrid)
   for (k=ks; k<=ke; k++) {
     for (j=2; j<=nghost; j++) {
       for (i=is-nghost; i<=ie+nghost; i++) {
-        pGrid->B2i[k][je+j][i] = pGrid->B2i[k][je][i];
+        pGrid->B2i[k][je+j][i] = pGrid->B2i[k][je+1][i];
       }
     }
   }
@@ -1619,7 +1619,7 @@ static void outflow_ox3(GridS *pGrid)
   for (k=2; k<=nghost; k++) {
     for (j=js-nghost; j<=je+nghost; j++) {
       for (i=is-nghost; i<=ie+nghost; i++) {
-        pGrid->B3i[ke+k][j][i] = pGrid->B3i[ke][j][i];
+        pGrid->B3i[ke+k][j][i] = pGrid->B3i[ke+1][j][i];
       }
     }
   }
-- 
2.43.0


From 5a6c31a0fc1349558ccfd2375bc7d183a6530ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:28 +0000
Subject: [PATCH 02/18] fix: 2D special-relativistic MHD integrator keeps B3i
 in step with B3c

---
 src/integrators/integrate_2d_vl_sr.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..74518c0 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1024,6 +1024,16 @@ void integrate_2d_vl(DomainS *pD)
 #endif /* MHD */
 #endif /* FIRST_ORDER_FLUX_CORRECTION */
 
+#ifdef MHD
+/* Set interface centered B3 to the updated cell-centered value (for 2D, B3i is
+ * what is stored in, and read back from, restart files) */
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+    }
+  }
+#endif /* MHD */
+
 #ifdef STATIC_MESH_REFINEMENT
 /*=== STEP 16: With SMR, store fluxes at fine/coarse boundaries ==============*/
 
-- 
2.43.0


From 6da112797caf9dc03b21b34f535d67b1373808a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:25 +0000
Subject: [PATCH 03/18] fix: anisotropic viscosity uses the Real3Vect member
 names x1,x2,x3 so that MHD with viscosity compiles

---
 src/microphysics/viscosity.c | 144 +++++++++++++++++------------------
 1 file changed, 72 insertions(+), 72 deletions(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 3ec0ef3..20366ca 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -354,50 +354,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie+1; i++) {
 
       /* Monotonized Velocity gradient dVx/dy */
-      dVxdy = limiter4(Vel[k][j+1][i  ].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j+1][i-1].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j  ][i-1].x - Vel[k][j-1][i-1].x);
+      dVxdy = limiter4(Vel[k][j+1][i  ].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j+1][i-1].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j  ][i-1].x1 - Vel[k][j-1][i-1].x1);
       dVxdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVy/dy */
-      dVydy = limiter4(Vel[k][j+1][i  ].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j+1][i-1].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j  ][i-1].y - Vel[k][j-1][i-1].y);
+      dVydy = limiter4(Vel[k][j+1][i  ].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j+1][i-1].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j  ][i-1].x2 - Vel[k][j-1][i-1].x2);
       dVydy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVz/dy */
-      dVzdy = limiter4(Vel[k][j+1][i  ].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j+1][i-1].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j  ][i-1].z - Vel[k][j-1][i-1].z);
+      dVzdy = limiter4(Vel[k][j+1][i  ].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j+1][i-1].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j  ][i-1].x3 - Vel[k][j-1][i-1].x3);
       dVzdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVx/dz, 3D problem ONLY */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j][i  ].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k-1][j][i  ].x,
-                         Vel[k+1][j][i-1].x - Vel[k  ][j][i-1].x,
-                         Vel[k  ][j][i-1].x - Vel[k-1][j][i-1].x);
+        dVxdz = limiter4(Vel[k+1][j][i  ].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k+1][j][i-1].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k  ][j][i-1].x1 - Vel[k-1][j][i-1].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz = limiter4(Vel[k+1][j][i  ].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k-1][j][i  ].y,
-                         Vel[k+1][j][i-1].y - Vel[k  ][j][i-1].y,
-                         Vel[k  ][j][i-1].y - Vel[k-1][j][i-1].y);
+        dVydz = limiter4(Vel[k+1][j][i  ].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k+1][j][i-1].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k  ][j][i-1].x2 - Vel[k-1][j][i-1].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz = limiter4(Vel[k+1][j][i  ].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k-1][j][i  ].z,
-                         Vel[k+1][j][i-1].z - Vel[k  ][j][i-1].z,
-                         Vel[k  ][j][i-1].z - Vel[k-1][j][i-1].z);
+        dVzdz = limiter4(Vel[k+1][j][i  ].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k+1][j][i-1].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k  ][j][i-1].x3 - Vel[k-1][j][i-1].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -459,50 +459,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie; i++) {
 
       /* Monotonized Velocity gradient dVx/dx */
-      dVxdx = limiter4(Vel[k][j  ][i+1].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j-1][i+1].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j-1][i  ].x - Vel[k][j-1][i-1].x);
+      dVxdx = limiter4(Vel[k][j  ][i+1].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j-1][i+1].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j-1][i  ].x1 - Vel[k][j-1][i-1].x1);
       dVxdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVy/dx */
-      dVydx = limiter4(Vel[k][j  ][i+1].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j-1][i+1].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j-1][i  ].y - Vel[k][j-1][i-1].y);
+      dVydx = limiter4(Vel[k][j  ][i+1].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j-1][i+1].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j-1][i  ].x2 - Vel[k][j-1][i-1].x2);
       dVydx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVz/dx */
-      dVzdx = limiter4(Vel[k][j  ][i+1].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j-1][i+1].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j-1][i  ].z - Vel[k][j-1][i-1].z);
+      dVzdx = limiter4(Vel[k][j  ][i+1].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j-1][i+1].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j-1][i  ].x3 - Vel[k][j-1][i-1].x3);
       dVzdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVx/dz */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j  ][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k+1][j-1][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k  ][j-1][i].x - Vel[k-1][j-1][i].x);
+        dVxdz = limiter4(Vel[k+1][j  ][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k+1][j-1][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k  ][j-1][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz =limiter4(Vel[k+1][j  ][i].y - Vel[k  ][j  ][i].y,
-                        Vel[k  ][j  ][i].y - Vel[k-1][j  ][i].y,
-                        Vel[k+1][j-1][i].y - Vel[k  ][j-1][i].y,
-                        Vel[k  ][j-1][i].y - Vel[k-1][j-1][i].y);
+        dVydz =limiter4(Vel[k+1][j  ][i].x2 - Vel[k  ][j  ][i].x2,
+                        Vel[k  ][j  ][i].x2 - Vel[k-1][j  ][i].x2,
+                        Vel[k+1][j-1][i].x2 - Vel[k  ][j-1][i].x2,
+                        Vel[k  ][j-1][i].x2 - Vel[k-1][j-1][i].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz =limiter4(Vel[k+1][j  ][i].z - Vel[k  ][j  ][i].z,
-                        Vel[k  ][j  ][i].z - Vel[k-1][j  ][i].z,
-                        Vel[k+1][j-1][i].z - Vel[k  ][j-1][i].z,
-                        Vel[k  ][j-1][i].z - Vel[k-1][j-1][i].z);
+        dVzdz =limiter4(Vel[k+1][j  ][i].x3 - Vel[k  ][j  ][i].x3,
+                        Vel[k  ][j  ][i].x3 - Vel[k-1][j  ][i].x3,
+                        Vel[k+1][j-1][i].x3 - Vel[k  ][j-1][i].x3,
+                        Vel[k  ][j-1][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -565,45 +565,45 @@ void ViscStress_aniso(DomainS *pD)
       for (i=is; i<=ie; i++) {
 
         /* Monotonized Velocity gradient dVx/dx */
-        dVxdx = limiter4(Vel[k  ][j][i+1].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k  ][j][i-1].x,
-                         Vel[k-1][j][i+1].x - Vel[k-1][j][i  ].x,
-                         Vel[k-1][j][i  ].x - Vel[k-1][j][i-1].x);
+        dVxdx = limiter4(Vel[k  ][j][i+1].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k-1][j][i+1].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k-1][j][i  ].x1 - Vel[k-1][j][i-1].x1);
         dVxdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVy/dx */
-        dVydx = limiter4(Vel[k  ][j][i+1].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k  ][j][i-1].y,
-                         Vel[k-1][j][i+1].y - Vel[k-1][j][i  ].y,
-                         Vel[k-1][j][i  ].y - Vel[k-1][j][i-1].y);
+        dVydx = limiter4(Vel[k  ][j][i+1].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k-1][j][i+1].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k-1][j][i  ].x2 - Vel[k-1][j][i-1].x2);
         dVydx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVz/dx */
-        dVzdx = limiter4(Vel[k  ][j][i+1].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k  ][j][i-1].z,
-                         Vel[k-1][j][i+1].z - Vel[k-1][j][i  ].z,
-                         Vel[k-1][j][i  ].z - Vel[k-1][j][i-1].z);
+        dVzdx = limiter4(Vel[k  ][j][i+1].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k-1][j][i+1].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k-1][j][i  ].x3 - Vel[k-1][j][i-1].x3);
         dVzdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVx/dy */
-        dVxdy = limiter4(Vel[k  ][j+1][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k-1][j+1][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k-1][j  ][i].x - Vel[k-1][j-1][i].x);
+        dVxdy = limiter4(Vel[k  ][j+1][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k-1][j+1][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k-1][j  ][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVy/dy */
-        dVydy = limiter4(Vel[k  ][j+1][i].y - Vel[k  ][j  ][i].y,
-                         Vel[k  ][j  ][i].y - Vel[k  ][j-1][i].y,
-                         Vel[k-1][j+1][i].y - Vel[k-1][j  ][i].y,
-                         Vel[k-1][j  ][i].y - Vel[k-1][j-1][i].y);
+        dVydy = limiter4(Vel[k  ][j+1][i].x2 - Vel[k  ][j  ][i].x2,
+                         Vel[k  ][j  ][i].x2 - Vel[k  ][j-1][i].x2,
+                         Vel[k-1][j+1][i].x2 - Vel[k-1][j  ][i].x2,
+                         Vel[k-1][j  ][i].x2 - Vel[k-1][j-1][i].x2);
         dVydy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVz/dy */
-        dVzdy = limiter4(Vel[k  ][j+1][i].z - Vel[k  ][j  ][i].z,
-                         Vel[k  ][j  ][i].z - Vel[k  ][j-1][i].z,
-                         Vel[k-1][j+1][i].z - Vel[k-1][j  ][i].z,
-                         Vel[k-1][j  ][i].z - Vel[k-1][j-1][i].z);
+        dVzdy = limiter4(Vel[k  ][j+1][i].x3 - Vel[k  ][j  ][i].x3,
+                         Vel[k  ][j  ][i].x3 - Vel[k  ][j-1][i].x3,
+                         Vel[k-1][j+1][i].x3 - Vel[k-1][j  ][i].x3,
+                         Vel[k-1][j  ][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdy /= pG->dx2;
         
 /* Compute field components at x3-interface */
-- 
2.43.0


From 82d620a012f975f8acc39e92504c828f764f2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:25 +0000
Subject: [PATCH 04/18] fix: anisotropic viscosity adds to the x1 energy flux
 instead of overwriting the isotropic part

---
 src/microphysics/viscosity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 20366ca..9af96c1 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -444,7 +444,7 @@ void ViscStress_aniso(DomainS *pD)
       x1Flux[k][j][i].Mz += VStress.Mz;
 
 #ifndef BAROTROPIC
-      x1Flux[k][j][i].E =
+      x1Flux[k][j][i].E +=
          0.5*(Vel[k][j][i-1].x1 + Vel[k][j][i].x1)*VStress.Mx +
          0.5*(Vel[k][j][i-1].x2 + Vel[k][j][i].x2)*VStress.My +
          0.5*(Vel[k][j][i-1].x3 + Vel[k][j][i].x3)*VStress.Mz;
-- 
2.43.0


From 502934e50c24176a04fdafb789795edd0ae6edec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 05/18] fix: new_dt bounds |B| from above also where the
 cell-centered field is negative

---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..361125d 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -95,11 +95,11 @@ void new_dt(MeshS *pM)
 #ifdef MHD
 
 /* Use maximum of face-centered fields (always larger than cell-centered B) */
-        b1 = pGrid->U[k][j][i].B1c 
+        b1 = fabs((double)(pGrid->U[k][j][i].B1c))
           + fabs((double)(pGrid->B1i[k][j][i] - pGrid->U[k][j][i].B1c));
-        b2 = pGrid->U[k][j][i].B2c 
+        b2 = fabs((double)(pGrid->U[k][j][i].B2c))
           + fabs((double)(pGrid->B2i[k][j][i] - pGrid->U[k][j][i].B2c));
-        b3 = pGrid->U[k][j][i].B3c 
+        b3 = fabs((double)(pGrid->U[k][j][i].B3c))
           + fabs((double)(pGrid->B3i[k][j][i] - pGrid->U[k][j][i].B3c));
         bsq = b1*b1 + b2*b2 + b3*b3;
 /* compute sound speed squared */
-- 
2.43.0


From c2e6da247b737e08611e194cb30bd4d2a1ec0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 06/18] fix: new_dt limits the time step by the speed of
 particles moving in the negative direction too

---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 361125d..4e729fe 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -157,11 +157,11 @@ void new_dt(MeshS *pM)
 #ifdef PARTICLES
     for (q=0; q<pGrid->nparticle; q++) {
       if (pGrid->Nx[0] > 1)
-        max_v1 = MAX(max_v1, pGrid->particle[q].v1);
+        max_v1 = MAX(max_v1, fabs((double)(pGrid->particle[q].v1)));
       if (pGrid->Nx[1] > 1)
-        max_v2 = MAX(max_v2, pGrid->particle[q].v2);
+        max_v2 = MAX(max_v2, fabs((double)(pGrid->particle[q].v2)));
       if (pGrid->Nx[2] > 1)
-        max_v3 = MAX(max_v3, pGrid->particle[q].v3);
+        max_v3 = MAX(max_v3, fabs((double)(pGrid->particle[q].v3)));
     }
 #endif /* PARTICLES */
 
-- 
2.43.0


From 7c33f644245b91ae47c0e69089db2a738bae7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 07/18] fix: Roe solver in cylindrical coordinates returns the
 pressure of the right state for supersonic flow to the left

---
 src/rsolvers/roe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/roe.c b/src/rsolvers/roe.c
index 631540a..9143be8 100644
--- a/src/rsolvers/roe.c
+++ b/src/rsolvers/roe.c
@@ -223,7 +223,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   if(ev[NWAVE-1] <= 0.0){
     *pFlux = Fr;
 #if defined(CYLINDRICAL) && !defined(BAROTROPIC)
-    pFlux->Pflux = Wl.P;
+    pFlux->Pflux = Wr.P;
 #ifdef MHD
     pFlux->Pflux += pbr;
 #endif /* MHD */
-- 
2.43.0


From 71d9806b9bc731f78f18a1b762763c30731ebb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:39 +0000
Subject: [PATCH 08/18] fix: FORCE solver uses the magnetic pressure of the
 mean state in its Lax-Wendroff energy flux

---
 src/rsolvers/force.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsolvers/force.c b/src/rsolvers/force.c
index 13b053f..06ad029 100644
--- a/src/rsolvers/force.c
+++ b/src/rsolvers/force.c
@@ -270,7 +270,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Fc.Mz -= Bxi*Wc.Bz;
 
 #ifndef ISOTHERMAL
-  Fc.E += (pbl*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
+  Fc.E += (0.5*(SQR(Bxi) + SQR(Wc.By) + SQR(Wc.Bz))*Wc.Vx
+           - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
 #endif /* ISOTHERMAL */
 
   Fc.By = Wc.By*Wc.Vx - Bxi*Wc.Vy;
-- 
2.43.0


From 354f7a38d95385bec509b5fb86b43c8f175cefd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:19 +0000
Subject: [PATCH 09/18] fix: relativistic MHD signal speeds treat a negative
 normal field like a positive one

---
 src/rsolvers/hllc_sr.c | 2 +-
 src/rsolvers/hlld_sr.c | 2 +-
 src/rsolvers/hlle_sr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index bdc3d51..f6f5305 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -844,7 +844,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index a35afc5..bc14918 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -958,7 +958,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlle_sr.c b/src/rsolvers/hlle_sr.c
index 1310989..6325bdd 100644
--- a/src/rsolvers/hlle_sr.c
+++ b/src/rsolvers/hlle_sr.c
@@ -445,7 +445,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
-- 
2.43.0


From 920574c571c5978c20e3662b2e5f834165f17fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:52 +0000
Subject: [PATCH 10/18] fix: evaluate diffusivities after a restart, so the
 first step is not ideal

---
 src/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.c b/src/main.c
index 01de31d..5fde64a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -429,6 +429,11 @@ int main(int argc, char *argv[])
 /* For new runs, set initial timestep */
 
   if(ires == 0) new_dt(&Mesh);
+#ifdef RESISTIVITY
+/* For restarts dt is read from the file, but the diffusivities (which new_dt
+ * evaluates) still have to be computed for the first step */
+  else new_dt_diff(&Mesh);
+#endif
 
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
-- 
2.43.0


From e541c37f5a7072ed0505d4dddc39e5e8cfd0aaf3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:10:27 +0000
Subject: [PATCH 11/18] fix: output of domain 0 is not named after the domain
 written before it

pdom kept the "domN" of an earlier domain, so on a refined level with several
domains the file of domain 0 could overwrite the one of domain N.
---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pdf.c   | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 7 files changed, 8 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..1cb2d6b 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -94,6 +94,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..5bb6f7c 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -342,6 +342,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
           }
 #endif
 
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..4e7843f 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -73,6 +73,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
@@ -323,6 +324,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..0899632 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -94,6 +94,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..4ad2c8f 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -233,6 +233,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           sprintf(pdir,"lev%d",nl);
         }
 #endif
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..1b1b115 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -64,6 +64,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..dea1e4a 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -76,6 +76,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
-- 
2.43.0


From 2866d3279b010eb5a247d1f089edbcfa392c4458 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:10:27 +0000
Subject: [PATCH 12/18] fix: tab dumps label the x2 and x3 columns whenever
 they are written

---
 src/dump_tab.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index 4e7843f..161642e 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -136,11 +136,11 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
 
         fprintf(pfile,"# [%d]=i-zone",col_cnt);
         col_cnt++;
-        if (pG->Nx[1] > 2) {
+        if (pG->Nx[1] > 1) {
           fprintf(pfile," [%d]=j-zone",col_cnt);
           col_cnt++;
         }
-        if (pG->Nx[2] > 3) {
+        if (pG->Nx[2] > 1) {
           fprintf(pfile," [%d]=k-zone",col_cnt);
           col_cnt++;
         }
@@ -151,11 +151,11 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           fprintf(pfile," [%d]=x1",col_cnt);
           col_cnt++;
         }
-        if (pG->Nx[1] > 2) {
+        if (pG->Nx[1] > 1) {
           fprintf(pfile," [%d]=x2",col_cnt);
           col_cnt++;
         }
-        if (pG->Nx[2] > 3) {
+        if (pG->Nx[2] > 1) {
           fprintf(pfile," [%d]=x3",col_cnt);
           col_cnt++;
         }
@@ -388,11 +388,11 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
 
         fprintf(pfile,"# [%d]=i-zone",col_cnt);
         col_cnt++;
-        if (pG->Nx[1] > 2) {
+        if (pG->Nx[1] > 1) {
           fprintf(pfile," [%d]=j-zone",col_cnt);
           col_cnt++;
         }
-        if (pG->Nx[2] > 3) {
+        if (pG->Nx[2] > 1) {
           fprintf(pfile," [%d]=k-zone",col_cnt);
           col_cnt++;
         }
@@ -401,11 +401,11 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
 
         fprintf(pfile," [%d]=x1",col_cnt);
         col_cnt++;
-        if (pG->Nx[1] > 2) {
+        if (pG->Nx[1] > 1) {
           fprintf(pfile," [%d]=x2",col_cnt);
           col_cnt++;
         }
-        if (pG->Nx[2] > 3) {
+        if (pG->Nx[2] > 1) {
           fprintf(pfile," [%d]=x3",col_cnt);
           col_cnt++;
         }
-- 
2.43.0


From 961a4add5becc596126b8693ca0ea5e0b2dc3630 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:10:27 +0000
Subject: [PATCH 13/18] fix: binary dump announces binned particles only if it
 writes them

---
 src/dump_binary.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index 1cb2d6b..58920d9 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -129,7 +129,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
         ndata[5] = 0;
 #endif
 #ifdef PARTICLES
-        ndata[6] = 1;
+        ndata[6] = pOut->out_pargrid ? 1 : 0;
 #else
         ndata[6] = 0;
 #endif
-- 
2.43.0


From d11353ded2c7a0111abd0c8b269353b4a57aa0b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:10:27 +0000
Subject: [PATCH 14/18] fix: history arrays hold all columns with 30 user
 variables

SR MHD (and cylindrical MHD with self-gravity) have more than 14 standard columns.
---
 src/dump_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 5bb6f7c..7bcb7c1 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -74,7 +74,7 @@
 #include "prototypes.h"
 
 /* Maximum Number of default history dump columns. */
-#define NSCAL 14
+#define NSCAL 18
 
 /* Maximum number of history dump columns that the user routine can add. */
 #define MAX_USR_H_COUNT 30
-- 
2.43.0


From e7cdd3dba2d77e2018bd6d258bdab5fdaf8c59f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:10:27 +0000
Subject: [PATCH 15/18] fix: history averages divide by the volume the cells
 were summed with in 1D and 2D

---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 7bcb7c1..34d3b62 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -318,8 +318,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
 #ifdef CYLINDRICAL
           dVol = 0.5*(SQR(pD->MaxX[0]) - SQR(pD->MinX[0]));
 #endif
-          if (pD->Nx[1] > 1) dVol *= (pD->MaxX[1] - pD->MinX[1]);
-          if (pD->Nx[2] > 1) dVol *= (pD->MaxX[2] - pD->MinX[2]);
+          dVol *= (pD->MaxX[1] - pD->MinX[1]);
+          dVol *= (pD->MaxX[2] - pD->MinX[2]);
           for(i=2; i<total_hst_cnt; i++){
             scal[i] /= dVol;
           }
-- 
2.43.0


From b67d40bad30726877ac1a827adc427de86365662 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:10:27 +0000
Subject: [PATCH 16/18] fix: only the parent of a Domain writes its history row

World rank 0 also wrote one, with its partial sums, where it is not rank 0 of the Domain.
---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 34d3b62..d9efbc6 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -101,7 +101,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
   FILE *pfile;
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL,fmt[80];
   char levstr[8],domstr[8],dirstr[20];
-  int n, total_hst_cnt, mhst, myID_Comm_Domain=1;
+  int n, total_hst_cnt, mhst, myID_Comm_Domain=0;
 #ifdef MPI_PARALLEL
   double my_scal[NSCAL + NSCALARS + MAX_USR_H_COUNT]; /* My Volume averages */
   int ierr;
@@ -310,7 +310,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
 #ifdef MPI_PARALLEL
         ierr = MPI_Comm_rank(pD->Comm_Domain, &myID_Comm_Domain);
 #endif
-        if((myID_Comm_Domain==0) || (myID_Comm_world==0)){  /* I'm the parent */
+        if(myID_Comm_Domain==0){  /* I'm the parent */
 
 /* Compute volume averages */
 
-- 
2.43.0


From a958cf2c21a90112eb7fd42f7ce5ad28304fa9e5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:29:04 +0000
Subject: [PATCH 17/18] fix: ID_Comm_Parent is the rank in the parent's
 communicator, not in MPI_COMM_WORLD

With three or more levels the processes of a parent Domain need not be 0,1,2,...:
restriction then sent to the wrong process and the run deadlocked.
---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ed90b88..a28499f 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -784,7 +784,7 @@ void init_mesh(MeshS *pM)
             groupn++;
             Nranks++;
           } else {
-            pCD->GData[n][m][l].ID_Comm_Parent = ranks[irank];
+            pCD->GData[n][m][l].ID_Comm_Parent = irank;
           }
         }}}
       }
-- 
2.43.0


From b6a79ab5617e91c16db16a0ecf7c7d39615bbb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:53 +0000
Subject: [PATCH 18/18] fix: anisotropic conduction in 2D normalises with the
 whole field, not its part in the plane

---
 src/microphysics/conduction.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/conduction.c b/src/microphysics/conduction.c
index 1e78ffe..a26f6bd 100644
--- a/src/microphysics/conduction.c
+++ b/src/microphysics/conduction.c
@@ -249,7 +249,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         By = 0.5*(pG->U[k][j][i-1].B2c + pG->U[k][j][i].B2c);
-        B02 = SQR(pG->B1i[k][j][i]) + SQR(By);
+        Bz = 0.5*(pG->U[k][j][i-1].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(pG->B1i[k][j][i]) + SQR(By) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
         bDotGradT = pG->B1i[k][j][i]*(Temp[k][j][i]-Temp[k][j][i-1])/pG->dx1
            + By*dTdy;
@@ -297,7 +298,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         Bx = 0.5*(pG->U[k][j-1][i].B1c + pG->U[k][j][i].B1c);
-        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]);
+        Bz = 0.5*(pG->U[k][j-1][i].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
 
         bDotGradT = pG->B2i[k][j][i]*(Temp[k][j][i]-Temp[k][j-1][i])/pG->dx2
-- 
2.43.0

