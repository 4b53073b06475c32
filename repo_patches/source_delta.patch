From 6eeae9bdcf192854af474dcce8b4cf6aef80543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 01/79] fix: third component of the spin vector extracted from
 a 3x3 matrix

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From ca42237820a2d0709ac7453d7558777e9a94c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 02/79] fix: minimum rotation between opposite directions

---
 include/delfem2/mat3_funcs.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..3b39815 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -827,15 +827,17 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
       FrameFromVectorZ(epx, epy, ep);
       const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
       const VEC eqy = eq.cross(eqx);
+      // Rq * Rp^T, where the columns of Rp and Rq are the two frames
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
-      /*
-      const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
-      const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-      return Rq * Rp.transpose();
-       */
+          eqx.x * epx.x + eqy.x * epy.x + eq.x * ep.x,
+          eqx.x * epx.y + eqy.x * epy.y + eq.x * ep.y,
+          eqx.x * epx.z + eqy.x * epy.z + eq.x * ep.z,
+          eqx.y * epx.x + eqy.y * epy.x + eq.y * ep.x,
+          eqx.y * epx.y + eqy.y * epy.y + eq.y * ep.y,
+          eqx.y * epx.z + eqy.y * epy.z + eq.y * ep.z,
+          eqx.z * epx.x + eqy.z * epy.x + eq.z * ep.x,
+          eqx.z * epx.y + eqy.z * epy.y + eq.z * ep.y,
+          eqx.z * epx.z + eqy.z * epy.z + eq.z * ep.z};
     }
   }
   const REAL st = std::sqrt(st2);
-- 
2.43.0


From c1a0757df67b2cf47d1250cc3ed62d9b06f088ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 03/79] fix: quadratic bending energy is the potential of its
 own gradient (factor 1/2)

---
 include/delfem2/fem_quadratic_bending.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_quadratic_bending.cpp b/include/delfem2/fem_quadratic_bending.cpp
index 3cdcc3e..549fd4f 100644
--- a/include/delfem2/fem_quadratic_bending.cpp
+++ b/include/delfem2/fem_quadratic_bending.cpp
@@ -101,7 +101,7 @@ DFM2_INLINE void delfem2::WdWddW_Bend(
           dW[ino][idim] += ddW[ino][jno][idim][jdim] * c[jno][jdim];
         }
       }
-      W += dW[ino][idim] * c[ino][idim];
+      W += 0.5 * dW[ino][idim] * c[ino][idim];
     }
   }
 }
-- 
2.43.0


From 3d468354c442a4f65e856daa9026efc0b44f9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 04/79] fix: rigid shape matching used the rest z coordinate
 for the deformed point

---
 include/delfem2/pbd_geo3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 024e347..1e3e3db 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -133,7 +133,7 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
       const int ip = clstr[iip];
       const CVec3d dq = CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - qc; // undeform
-      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZ0[ip * 3 + 2]) - pc; // deform
+      const CVec3d dp = CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]) - pc; // deform
       A[0 * 3 + 0] += dp[0] * dq[0];
       A[0 * 3 + 1] += dp[0] * dq[1];
       A[0 * 3 + 2] += dp[0] * dq[2];
-- 
2.43.0


From 3db1ca6129127e808d9f73e9a71a3d7324c56361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:23 +0000
Subject: [PATCH 05/79] fix: positive definite part of the membrane stress kept
 the wrong principal direction

---
 include/delfem2/fem_stvk.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/fem_stvk.cpp b/include/delfem2/fem_stvk.cpp
index cc44675..5e77850 100644
--- a/include/delfem2/fem_stvk.cpp
+++ b/include/delfem2/fem_stvk.cpp
@@ -243,9 +243,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t0 = 1.0/sqrt(sqlen_t0);
     t0[0] *= invlen_t0;
     t0[1] *= invlen_t0;
-    s3[0] = l*t0[0]*t0[0];
-    s3[1] = l*t0[1]*t0[1];
-    s3[2] = l*t0[0]*t0[1];
+    s3[0] = +l*t0[1]*t0[1]; // the eigenvector of "l" is orthogonal to t0
+    s3[1] = +l*t0[0]*t0[0];
+    s3[2] = -l*t0[0]*t0[1];
   }
   else{
     if( sqlen_t1 < 1.0e-20 ){
@@ -257,9 +257,9 @@ DFM2_INLINE void MakePositiveDefinite_Sim22(
     const double invlen_t1 = 1.0/sqrt(sqlen_t1);
     t1[0] *= invlen_t1;
     t1[1] *= invlen_t1;
-    s3[0] = l*t1[0]*t1[0];
-    s3[1] = l*t1[1]*t1[1];
-    s3[2] = l*t1[0]*t1[1];
+    s3[0] = +l*t1[1]*t1[1]; // the eigenvector of "l" is orthogonal to t1
+    s3[1] = +l*t1[0]*t1[0];
+    s3[2] = -l*t1[0]*t1[1];
   }
 }
 
-- 
2.43.0


From a302534c714c5a3972c6952c0f8fb05b2045178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:35 +0000
Subject: [PATCH 06/79] fix: Hessian of the MIPS energy away from the rest
 shape (cross terms were not transposed)

---
 include/delfem2/fem_mips.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/fem_mips.cpp b/include/delfem2/fem_mips.cpp
index ac8a7e4..6762928 100644
--- a/include/delfem2/fem_mips.cpp
+++ b/include/delfem2/fem_mips.cpp
@@ -105,15 +105,15 @@ DFM2_INLINE void delfem2::WdWddW_MIPS(
     dE[1][idim]=EC*dEA*dad1[idim]+EA*dECd1[idim];
     dE[2][idim]=EC*dEA*dad2[idim]+EA*dECd2[idim];
   }
-  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0)*2.0;
-  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dad1,dECd0);
-  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dad2,dECd0);
-  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dad0,dECd1);
-  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1)*2.0;
-  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dad2,dECd1);
-  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dad0,dECd2);
-  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dad1,dECd2);
-  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2)*2.0;
+  CMat3d ddEd0d0 = EC*dEA*ddad0d0 + EC*ddEA*op(dad0,dad0) + EA*CMat3d::Identity(t00) + dEA*op(dad0,dECd0) + dEA*op(dECd0,dad0);
+  CMat3d ddEd0d1 = EC*dEA*ddad0d1 + EC*ddEA*op(dad0,dad1) + EA*CMat3d::Identity(t01) + dEA*op(dad0,dECd1) + dEA*op(dECd0,dad1);
+  CMat3d ddEd0d2 = EC*dEA*ddad0d2 + EC*ddEA*op(dad0,dad2) + EA*CMat3d::Identity(t02) + dEA*op(dad0,dECd2) + dEA*op(dECd0,dad2);
+  CMat3d ddEd1d0 = EC*dEA*ddad1d0 + EC*ddEA*op(dad1,dad0) + EA*CMat3d::Identity(t01) + dEA*op(dad1,dECd0) + dEA*op(dECd1,dad0);
+  CMat3d ddEd1d1 = EC*dEA*ddad1d1 + EC*ddEA*op(dad1,dad1) + EA*CMat3d::Identity(t11) + dEA*op(dad1,dECd1) + dEA*op(dECd1,dad1);
+  CMat3d ddEd1d2 = EC*dEA*ddad1d2 + EC*ddEA*op(dad1,dad2) + EA*CMat3d::Identity(t12) + dEA*op(dad1,dECd2) + dEA*op(dECd1,dad2);
+  CMat3d ddEd2d0 = EC*dEA*ddad2d0 + EC*ddEA*op(dad2,dad0) + EA*CMat3d::Identity(t02) + dEA*op(dad2,dECd0) + dEA*op(dECd2,dad0);
+  CMat3d ddEd2d1 = EC*dEA*ddad2d1 + EC*ddEA*op(dad2,dad1) + EA*CMat3d::Identity(t12) + dEA*op(dad2,dECd1) + dEA*op(dECd2,dad1);
+  CMat3d ddEd2d2 = EC*dEA*ddad2d2 + EC*ddEA*op(dad2,dad2) + EA*CMat3d::Identity(t22) + dEA*op(dad2,dECd2) + dEA*op(dECd2,dad2);
   
   for(int idim=0;idim<3;++idim){
     for(int jdim=0;jdim<3;++jdim){
-- 
2.43.0


From b2287b9d1069de2a0dd8d40d87e764453c81fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 07/79] fix: EMat_SolidLinear_Static_Tet with is_add used the
 accumulated matrix in the residual

---
 include/delfem2/fem_solidlinear.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/fem_solidlinear.cpp b/include/delfem2/fem_solidlinear.cpp
index 7503d2c..706be64 100644
--- a/include/delfem2/fem_solidlinear.cpp
+++ b/include/delfem2/fem_solidlinear.cpp
@@ -421,17 +421,17 @@ DFM2_INLINE void delfem2::EMat_SolidLinear_Static_Tet(
     TetDlDx(dldx, const_term, P[0], P[1], P[2], P[3]);
   }
   // ----------------------
-  if (is_add) {
-    femsolidlinear::AddEmat_LinearSolid3<4>(emat, lambda, myu, dldx, vol);
-  } else {
-    SetEmat_LinearSolid3<4>(emat, lambda, myu, dldx, vol);
-  }
+  double eKmat[4][4][3][3];
+  SetEmat_LinearSolid3<4>(eKmat, lambda, myu, dldx, vol);
   if (!is_add) {
-    for (int i = 0; i < 12; ++i) { (&eres[0][0])[i] = 0.0; }
+    std::fill_n(&emat[0][0][0][0], 4 * 4 * 3 * 3, 0.0);
+    std::fill_n(&eres[0][0], 4 * 3, 0.0);
   }
+  for (int i = 0; i < 4 * 4 * 3 * 3; ++i) { (&emat[0][0][0][0])[i] += (&eKmat[0][0][0][0])[i]; }
+  // the residual takes only the stiffness of this element, not what was in "emat" before
   AddEmatEvecScale3<4>(
     eres,
-    emat, disp, -1.);
+    eKmat, disp, -1.);
 }
 
 DFM2_INLINE void delfem2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(
-- 
2.43.0


From 7de607cdbfa0fbb97ca28eabdf8f536eb610d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 08/79] fix: SUPG advection term of Navier-Stokes elements
 missed the off-diagonal part of the consistent integral of v v^T

---
 include/delfem2/fem_navierstokes.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/delfem2/fem_navierstokes.cpp b/include/delfem2/fem_navierstokes.cpp
index 999bf45..ac6e9eb 100644
--- a/include/delfem2/fem_navierstokes.cpp
+++ b/include/delfem2/fem_navierstokes.cpp
@@ -97,6 +97,8 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes2D_Dynamic_Newmark_P1P1(
         tmp_mat[1][1] += velo[ino][1]*velo[jno][1];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
     }
     for(int ino=0;ino<nno;ino++){
@@ -453,7 +455,13 @@ DFM2_INLINE void delfem2::MakeMat_NavierStokes3D_Dynamic_Newmark_P1P1(
         tmp_mat[2][2] += velo[ino][2]*velo[jno][2];
       }
       tmp_mat[0][0] += velo[ino][0]*velo[ino][0];
+      tmp_mat[0][1] += velo[ino][0]*velo[ino][1];
+      tmp_mat[0][2] += velo[ino][0]*velo[ino][2];
+      tmp_mat[1][0] += velo[ino][1]*velo[ino][0];
       tmp_mat[1][1] += velo[ino][1]*velo[ino][1];
+      tmp_mat[1][2] += velo[ino][1]*velo[ino][2];
+      tmp_mat[2][0] += velo[ino][2]*velo[ino][0];
+      tmp_mat[2][1] += velo[ino][2]*velo[ino][1];
       tmp_mat[2][2] += velo[ino][2]*velo[ino][2];
     }
     for(int ino=0;ino<nno;ino++){
-- 
2.43.0


From c27fea0b5db46e2169d9f9d7d27eda00691d48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:50 +0000
Subject: [PATCH 09/79] fix: coupling of the two transverse shear strains of
 the MITC3 plate element was halved (stiffness depended on the node order)

---
 include/delfem2/fem_mitc3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/fem_mitc3.cpp b/include/delfem2/fem_mitc3.cpp
index 654666c..0fe1fe5 100644
--- a/include/delfem2/fem_mitc3.cpp
+++ b/include/delfem2/fem_mitc3.cpp
@@ -131,8 +131,8 @@ DFM2_INLINE void delfem2::WdWddW_PlateBendingMITC3(
          myu * GuGu2[1] * GuGu2[3]}  // st*st -> ss(1):tt(3)
     };
     const double CnstB[2][2] = {
-        {4.0 * CnstA[0][0], 2.0 * CnstA[0][1]},
-        {2.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
+        {4.0 * CnstA[0][0], 4.0 * CnstA[0][1]},
+        {4.0 * CnstA[1][0], 4.0 * CnstA[1][1]}};
     const double Ert_01 =
         0.5 * thk * (u[1][0] - u[0][0] + 0.5 * Gd[0][0] * (u[0][2] + u[1][2]) - 0.5 * Gd[0][1] * (u[0][1] + u[1][1]));
     const double Ert_12 =
-- 
2.43.0


From 10fb5a5721fb90d462679ae255be23baa9322a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 10/79] fix: rotational component of 2x2 matrices with
 axis-aligned stretch

---
 include/delfem2/mat2.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/mat2.cpp b/include/delfem2/mat2.cpp
index 331017a..499d7be 100644
--- a/include/delfem2/mat2.cpp
+++ b/include/delfem2/mat2.cpp
@@ -135,12 +135,12 @@ DFM2_INLINE void delfem2::RotationalComponentOfMatrix2(
       d = sqrt(d);
       l0 = 0.5 * (b + d);
       l1 = 0.5 * (b - d);
-      v0[0] = G[1];
-      v0[1] = G[3] - l1;
-      if (lcl::SquareLength2(v0) > eps) { lcl::Normalize2(v0); }
-      v1[0] = G[0] - l0;
-      v1[1] = G[2];
-      if (lcl::SquareLength2(v1) > eps) { lcl::Normalize2(v1); }
+      // the columns of (G - l1*I) are the eigen vectors of l0: take the larger one
+      v0[0] = (G[0] > G[3]) ? G[0] - l1 : G[1];
+      v0[1] = (G[0] > G[3]) ? G[2] : G[3] - l1;
+      lcl::Normalize2(v0);
+      v1[0] = -v0[1];
+      v1[1] = v0[0];
     }
   }
   double V[4] = {v0[0], v1[0], v0[1], v1[1]};
-- 
2.43.0


From 016e550c56cad32f02f8d212c0e7c85d33231d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:55 +0000
Subject: [PATCH 11/79] fix: bounds assertions of PBD_ConstProj_Rigid3D compare
 the right sizes

---
 include/delfem2/pbd_geo3.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/pbd_geo3.cpp b/include/delfem2/pbd_geo3.cpp
index 1e3e3db..d497617 100644
--- a/include/delfem2/pbd_geo3.cpp
+++ b/include/delfem2/pbd_geo3.cpp
@@ -121,8 +121,9 @@ DFM2_INLINE void delfem2::PBD_ConstProj_Rigid3D(
   for (int iclstr = 0; iclstr < nclstr; ++iclstr) {
     CVec3d pc(0, 0, 0), qc(0, 0, 0);
     for (int iip = clstr_ind[iclstr]; iip < clstr_ind[iclstr + 1]; iip++) {
+      assert(iip < nclstr0);
       const int ip = clstr[iip];
-      assert(ip < nclstr0);
+      assert(ip < nXYZ0);
       qc += CVec3d(aXYZ0[ip * 3 + 0], aXYZ0[ip * 3 + 1], aXYZ0[ip * 3 + 2]);
       pc += CVec3d(aXYZt[ip * 3 + 0], aXYZt[ip * 3 + 1], aXYZt[ip * 3 + 2]);
     }
-- 
2.43.0


From afb59d9062eb837a5bc7607e27086bec96e7785b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 12/79] fix: closed-form length of quadratic curves with
 collinear control points was NaN when the logarithm vanished

---
 include/delfem2/geo_curve_quadratic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 3b4b2b4..9bc2765 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -76,7 +76,8 @@ double Length_QuadraticCurve(
     const double tmp0 = (coe[1] + 2 * coe[2] * t) * std::sqrt(coe[0] + t * (coe[1] + coe[2] * t));
     const double tmp3 = sqrt(coe[2]);
     const double tmp1 = coe[1] + 2 * coe[2] * t + 2 * tmp3 * sqrt(coe[0] + t * (coe[1] + coe[2] * t));
-    const double tmp2 = (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1);
+    // the logarithm vanishes together with its coefficient if the control points are collinear
+    const double tmp2 = (tmp1 > 0) ? (coe[1] * coe[1] - 4 * coe[0] * coe[2]) * std::log(tmp1) : 0.;
     return tmp0 / (4. * coe[2]) - tmp2 / (8. * coe[2] * tmp3);
   };
   return intt(1) - intt(0);
-- 
2.43.0


From 1bfb3bc4e8d73ec327c3f9a2db4931184dd3e624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 13/79] fix: bisection lost a root that is hit exactly by a
 midpoint or lies at the right end

---
 include/delfem2/polynomial_root.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 38dd232..273280e 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -250,7 +250,7 @@ inline double RootInInterval_Bisection(
   for (int i = 0; i < num_iteration; i++) {
     const double x2 = (x0 + x1) / 2; // bisection method
     const double fx2 = Eval_Polynomial(x2, a, ndegree_plus1);
-    if (fx1 * fx2 < 0) {
+    if (fx1 * fx2 <= 0) {
       x0 = x1;
       x1 = x2;
       fx0 = fx1;
-- 
2.43.0


From 3c110328224302db184c1bad800fe2bc4662a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 14/79] fix: root of a linear equation had the wrong sign and
 was not restricted to the range

---
 include/delfem2/polynomial_root.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index 273280e..fd0a388 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -209,8 +209,8 @@ std::vector<REAL> RootsInRange_QuadraticPolynomial(
       assert(0);
       return {};
     }
-    const REAL cand = c / b;
-    if (cand > x0 || cand < x1) { return {cand}; }
+    const REAL cand = -c / b;
+    if (cand >= x0 && cand <= x1) { return {cand}; }
     return {};
   }
   delta = std::sqrt(delta);
-- 
2.43.0


From c9e52d746f3f9c52659b10ea43f28c1f5cc9bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 15/79] fix: nearest point on a Bezier curve was NaN where the
 second derivative of the squared distance vanishes

---
 include/delfem2/geo_curve_cubic.h     | 1 +
 include/delfem2/geo_curve_quadratic.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/delfem2/geo_curve_cubic.h b/include/delfem2/geo_curve_cubic.h
index 6612a0f..e851786 100644
--- a/include/delfem2/geo_curve_cubic.h
+++ b/include/delfem2/geo_curve_cubic.h
@@ -226,6 +226,7 @@ typename VEC::Scalar Nearest_CubicBezierCurve(
     SCALAR t0 = t;
     SCALAR dw = s0 + t * (s1 + t * (s2 + t * (s3 + t * (s4 + t * s5))));
     SCALAR ddw = u0 + t * (u1 + t * (u2 + t * (u3 + t * u4)));
+    if (ddw == 0) { break; }
     t -= dw / ddw;
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
diff --git a/include/delfem2/geo_curve_quadratic.h b/include/delfem2/geo_curve_quadratic.h
index 9bc2765..a553319 100644
--- a/include/delfem2/geo_curve_quadratic.h
+++ b/include/delfem2/geo_curve_quadratic.h
@@ -263,6 +263,7 @@ typename VEC::Scalar Nearest_QuadraticBezierCurve(
     SCALAR t0 = t;
     SCALAR dw = s0 + t * (s1 + t * (s2 + t * s3));
     SCALAR ddw = u0 + t * (u1 + t * u2);
+    if (ddw == 0) { break; }
     t -= dw / ddw;
     t = (t < 0) ? 0 : t;
     t = (t > 1) ? 1 : t;
-- 
2.43.0


From d1b2d6a31c2be6882aca4c2ca60b9e4c0c6567c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 16/79] fix: Sturm root finding missed roots if the range
 starts at a multiple root (nearest point at a center of curvature)

---
 include/delfem2/polynomial_root.h | 35 ++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/polynomial_root.h b/include/delfem2/polynomial_root.h
index fd0a388..d46bcc6 100644
--- a/include/delfem2/polynomial_root.h
+++ b/include/delfem2/polynomial_root.h
@@ -150,6 +150,38 @@ inline void SturmSequenceOfPolynomial(
   }
 }
 
+/**
+ * Divide the sturm sequence by its last non-zero polynomial, i.e., the greatest common divisor of
+ * the polynomial and its derivative. The first polynomial will have the same roots, all of them simple.
+ * @tparam n (degree of polynomial) + 1
+ * @param[in,out] strum sturm sequence
+ */
+template<int n>
+inline void MakeRootsSimple_SturmSequence(
+  double strum[n][n]) {
+  int ilast = n - 1, k0 = 0;
+  for (; ilast > 0; --ilast) {
+    k0 = n - 1 - ilast;
+    while (k0 > 0 && strum[ilast][k0] == 0) { k0--; }
+    if (strum[ilast][k0] != 0) { break; }
+  }
+  if (ilast == 0 || k0 == 0) { return; }  // constant: there is no multiple root
+  double divisor[n];
+  for (int l = 0; l < n; l++) { divisor[l] = strum[ilast][l]; }
+  for (int i = 0; i <= ilast; i++) {
+    for (int k = n - 1 - i; k >= 0; k--) {
+      const double quotient = (k < k0) ? 0. : strum[i][k] / divisor[k0];
+      for (int l = 1; l <= k0 && k >= k0; l++) {
+        strum[i][k - l] -= quotient * divisor[k0 - l];
+      }
+      strum[i][k] = quotient;
+    }
+    for (int k = 0; k < n - i; k++) {  // the quotient is stored from the degree of the divisor
+      strum[i][k] = (k + k0 < n - i) ? strum[i][k + k0] : 0.;
+    }
+  }
+}
+
 // --------------------------
 
 /**
@@ -277,12 +309,13 @@ std::vector<double> RootsOfPolynomial(
   static_assert(ndegplus1 >= 1, "degree of polynominal should not be negative");
   double strum[ndegplus1][ndegplus1];
   SturmSequenceOfPolynomial<ndegplus1>(strum, coe);
+  MakeRootsSimple_SturmSequence<ndegplus1>(strum);
   std::vector<std::pair<double, double>> intvls = RootInterval_SturmSequence<ndegplus1>(0, 1, strum);
   std::vector<double> res;
   for (auto intvl: intvls) {
     double y0 = RootInInterval_Bisection(
       intvl.first, intvl.second,
-      coe, ndegplus1, num_bisection);
+      strum[0], ndegplus1, num_bisection);
     res.push_back(y0);
   }
   return res;
-- 
2.43.0


From d5577888214868d5b507f324bb0cdb3685d79e82 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 17/79] fix: the last edge of a tetrahedron was listed as 2-2
 instead of 2-3

---
 include/delfem2/mshelm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..e045794 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
-- 
2.43.0


From 6ee8cb95907733cc1ce1f0d8494f05a77d3e51a4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 18/79] fix: Nearest_Edge3_Line3 called the integer abs, edges
 and lines with a determinant below 1 were treated as parallel

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..3acd118 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -328,7 +328,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (std::abs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
-- 
2.43.0


From ae44c676f55c270e85d86496e5b509d92e6e6854 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 19/79] fix: Distance_Edge3_Edge3 of parallel edges put the
 feet outside if one edge covers the other

---
 include/delfem2/geo_edge.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 3acd118..8135368 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -391,11 +391,8 @@ double delfem2::Distance_Edge3_Edge3(
     double p_max = (lp0 > lp1) ? lp0 : lp1;
     double q_min = (lq0 < lq1) ? lq0 : lq1;
     double q_max = (lq0 > lq1) ? lq0 : lq1;
-    double lm;
-    if (p_max < q_min) { lm = (p_max + q_min) * 0.5; }
-    else if (q_max < p_min) { lm = (q_max + p_min) * 0.5; }
-    else if (p_max < q_max) { lm = (p_max + q_min) * 0.5; }
-    else { lm = (q_max + p_min) * 0.5; }
+    // middle of the overlap (or of the gap)
+    const double lm = (((p_max < q_max) ? p_max : q_max) + ((p_min > q_min) ? p_min : q_min)) * 0.5;
     ratio_p = (lm - lp0) / (lp1 - lp0);
     ratio_q = (lm - lq0) / (lq1 - lq0);
     return dist;
-- 
2.43.0


From b9cc71a3d0f1da414de7b6030189b5d7e3f15f55 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 20/79] fix: Tangent_Polyline read past the end for a parameter
 at or beyond the last point

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..2a473b9 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -155,7 +155,7 @@ VEC Tangent_Polyline(
   assert(np>=2);
   if (np < 2) { return VEC(0, 0); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
-- 
2.43.0


From 692818b2116deb6ea05b79fa8a4552b88d0ed67e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 21/79] fix: Nearest_Polyline was NaN if the polyline starts
 with a repeated point

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index 2a473b9..aadac03 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -185,7 +185,7 @@ template<typename VEC>
     const VEC &sc = polyline[ip] - scr;
     const SCALAR a = es.squaredNorm();
     const SCALAR b = es.dot(sc);
-    const SCALAR ratio = std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1));
+    const SCALAR ratio = (a > 0) ? std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1)) : 0;
     VEC p = (1 - ratio) * polyline[ip] + ratio * polyline[ip + 1];
     SCALAR dist = (p - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
-- 
2.43.0


From 3840503de0a3fdf15ddd3c00cdb227a88b6e4fb8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 22/79] fix: Nearst_Origin3_Quad3 always returned the origin if
 Newton converged inside the quad

---
 include/delfem2/geo_quad.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..2dc54af 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -64,6 +64,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 += d0;
       t1 += d1;
     }
+    q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
       double d0 = q.norm();
-- 
2.43.0


From 58ec436a6af7bf44a74fd54af295efc5b5d970e8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 23/79] fix: SolidAngleTri was off by 2 pi for triangles seen
 under more than a half space

---
 include/delfem2/geo_tri.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..933f653 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -416,8 +416,7 @@ T delfem2::SolidAngleTri(
   const T l3 = v3.norm();
   const T den = (v1.cross(v2)).dot(v3);
   const T num = l1 * l2 * l3 + (v1.dot(v2)) * l3 + (v2.dot(v3)) * l1 + (v3.dot(v1)) * l2;
-  const T tho = den / num;
-  T v = std::atan(tho);
+  T v = std::atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From d8e6075bf7a51767611ece0cd0a01249400b297d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 24/79] fix: Nearest_Triangle3_Point3 returned a point on the
 edge if the query is inside the triangle and in its plane

---
 include/delfem2/geo_tri.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 933f653..aeef27a 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,12 +66,10 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
+  if (area > 1.0e-9) {
+    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
     assert(fabs(v0 + v1 + v2) > 1.0e-10);
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
-- 
2.43.0


From 54118c057dbb57cde886b4ac66de515b8c72b7bd Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 25/79] fix: isIntersectTriPair missed the intersection if the
 second vertex lies in the plane of the other triangle

---
 include/delfem2/geo_tri.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index aeef27a..43a1822 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -239,7 +239,7 @@ bool delfem2::isIntersectTriPair(
   const CVec3<T> q20 = (1.0 / (dq2 - dq0)) * (dq2 * q0 - dq0 * q2);
   const CVec3<T> vz = np.cross(nq);
   CVec3<T> ps, pe;
-  if (dp0 * dp1 > 0) {
+  if (dp0 * dp1 > 0 || (dp1 == 0 && dp2 * dp0 < 0)) {
     ps = p20;
     pe = p12;
   } else if (dp1 * dp2 > 0) {
@@ -259,7 +259,7 @@ bool delfem2::isIntersectTriPair(
   assert(zps <= zpe);
   //
   CVec3<T> qs, qe;
-  if (dq0 * dq1 > 0) {
+  if (dq0 * dq1 > 0 || (dq1 == 0 && dq2 * dq0 < 0)) {
     qs = q20;
     qe = q12;
   } else if (dq1 * dq2 > 0) {
-- 
2.43.0


From 6dc8c63f5a4cef550fb9886f33148b4ce0bfdef7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 26/79] fix: ProjectPointOnTriangle did not compile and was NaN
 at the first vertex

---
 include/delfem2/geo_tri.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 43a1822..d89042b 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -320,11 +320,8 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p1,
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
-  CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double cosAlpha = Dot(p0 - tri_p1, normal) / (Length(p0 - tri_p1) * Length(normal));
-  double lenP0ProjectedP0 = Length(tri_p1 - p0) * cosAlpha;
-  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
-  return p0 + p0ProjectedP0;
+  const CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
+  return p0 - normal * ((p0 - tri_p1).dot(normal) / normal.dot(normal));
 }
 
 // ----------------------
-- 
2.43.0


From 0caff496a41862bf291420f0623b7b8600cc011a Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 27/79] fix: Nearest_Plane3_Point3 did not compile

---
 include/delfem2/geo_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index 94c9f78..eb34902 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -57,7 +57,7 @@ delfem2::CVec3<T> delfem2::Nearest_Plane3_Point3(
   const CVec3<T> &n) // normal
 {
   const CVec3<T> n0 = n.normalized();
-  return p + ((o - p) * n0) * n0;
+  return p + (o - p).dot(n0) * n0;
 }
 
 // -------------------------------------
-- 
2.43.0


From b451df7b811c86b3d8151a06d4380996c3ad92b4 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 28/79] fix: Nearest_Line3_Point3 returning the parameter did
 not compile

---
 include/delfem2/geo_line.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_line.cpp b/include/delfem2/geo_line.cpp
index efdef3b..785017f 100644
--- a/include/delfem2/geo_line.cpp
+++ b/include/delfem2/geo_line.cpp
@@ -168,13 +168,13 @@ delfem2::CVec3<T> delfem2::Nearest_Line3_Point3(
   const CVec3<T> &s, // source
   const CVec3<T> &d) // direction
 {
-  if (Dot(d, d) < 1.0e-20) {
+  if (d.dot(d) < 1.0e-20) {
     t = 0;
     return s;
   }
   const CVec3<T> ps = s - p;
-  double a = Dot(d, d);
-  double b = Dot(d, s - p);
+  double a = d.dot(d);
+  double b = d.dot(s - p);
   t = -b / a;
   return s + t * d;
 }
-- 
2.43.0


From 585dcad241a6e58842b808c4c12a68590922b0ca Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 29/79] fix: Distance_Edge2_Edge2 did not compile,
 IsIntersect_AABB2_Edge2 was defined outside of the namespace

---
 include/delfem2/geo_edge.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 8135368..c2616f2 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -184,7 +184,7 @@ double delfem2::Distance_Edge2_Edge2(
   const CVec2<T> &po_e0,
   const CVec2<T> &po_s1,
   const CVec2<T> &po_e1) {
-  if (IsCross_LineSeg_LineSeg(po_s0, po_e0, po_s1, po_e1)) return -1;
+  if (IsIntersect_Edge2_Edge2(po_s0, po_e0, po_s1, po_e1)) return -1;
   const double ds1 = Distance_Edge_Point(po_s0, po_s1, po_e1);
   const double de1 = Distance_Edge_Point(po_e0, po_s1, po_e1);
   const double ds0 = Distance_Edge_Point(po_s1, po_s0, po_e0);
@@ -197,7 +197,7 @@ double delfem2::Distance_Edge2_Edge2(
 }
 
 template<typename VEC>
-bool IsIntersect_AABB2_Edge2(
+bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC &pmin,
   const VEC &pmax,
   const VEC &p0,
@@ -268,12 +268,12 @@ bool IsIntersect_AABB2_Edge2(
   return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2d &pmin,
   const delfem2::CVec2d &pmax,
   const delfem2::CVec2d &p0,
   const delfem2::CVec2d &p1);
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2f &pmin,
   const delfem2::CVec2f &pmax,
   const delfem2::CVec2f &p0,
-- 
2.43.0


From d3e8f1d36f793ad5002434fc3403893ac8fe0762 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 30/79] fix: the height and circumcircle of a 2D triangle did
 not compile

---
 include/delfem2/vec2.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/vec2.cpp b/include/delfem2/vec2.cpp
index 459dd8a..9ef62de 100644
--- a/include/delfem2/vec2.cpp
+++ b/include/delfem2/vec2.cpp
@@ -323,7 +323,7 @@ double delfem2::SquareDistance(
 // Hight of a triangle : between v1 and line of v2-v3
 template<typename T>
 double delfem2::TriHeight(const CVec2<T> &v1, const CVec2<T> &v2, const CVec2<T> &v3) {
-  const double area = Area_Tri(v1, v2, v3);
+  const double area = Area_Tri2(v1, v2, v3);
   const double len = sqrt(SquareDistance(v2, v3));
   return area * 2.0 / len;
 }
@@ -346,7 +346,7 @@ double delfem2::SquareCircumradius(
     const CVec2<T> &p0,
     const CVec2<T> &p1,
     const CVec2<T> &p2) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
 
   const double dtmp0 = SquareDistance(p1, p2);
   const double dtmp1 = SquareDistance(p0, p2);
@@ -362,7 +362,7 @@ bool delfem2::CenterCircumcircle(
     const CVec2<T> &p1,
     const CVec2<T> &p2,
     CVec2<T> &center) {
-  const double area = Area_Tri(p0, p1, p2);
+  const double area = Area_Tri2(p0, p1, p2);
   if (fabs(area) < 1.0e-10) { return false; }
   const double tmp_val = 1.0 / (area * area * 16.0);
 
-- 
2.43.0


From 61ff8af3a673d473dd0b1f1f28e0a3d2e72d7361 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 31/79] fix: the area and the resampling of a 2D polygon did
 not compile

---
 include/delfem2/geo_polygon2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..7fb9f17 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -63,7 +63,7 @@ double delfem2::Area_Polygon(
   const int ne = aP.size();
   double area_loop = 0.0;
   for (int ie = 0; ie < ne; ie++) {
-    area_loop += Area_Tri(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
+    area_loop += Area_Tri2(vtmp, aP[(ie + 0) % ne], aP[(ie + 1) % ne]);
   }
   return area_loop;
 }
@@ -107,7 +107,7 @@ std::vector<delfem2::CVec2<T>> delfem2::Polygon_Resample_Polygon(
     if (jcur > (int) stroke0.size() - 1) break;
     int ip0 = jcur;
     int ip1 = (jcur + 1) % stroke0.size();
-    double lenj = (stroke0[ip1] - stroke0[ip0]).Length();
+    double lenj = (stroke0[ip1] - stroke0[ip0]).norm();
     double lenjr = lenj * (1.0 - rcur);
     if (lenjr > lcur) { // put point in this segment
       rcur += lcur / lenj;
-- 
2.43.0


From b37c539ed5a787e37038a539b14597b4dd0a7d46 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 32/79] fix: the crossing check of two loops used y for the x
 coordinate

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 7fb9f17..f08ea82 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -481,7 +481,7 @@ bool delfem2::CheckInputBoundaryForTriangulation(
             int jpo1 = loopIP_ind[jloop] + jbar + 1;
             if (jbar == nbar_j - 1) { jpo1 = loopIP_ind[jloop]; }
             const double pj0[2] = {aXY[jpo0].p[0], aXY[jpo0].p[1]};
-            const double pj1[2] = {aXY[jpo1].p[1], aXY[jpo1].p[1]};
+            const double pj1[2] = {aXY[jpo1].p[0], aXY[jpo1].p[1]};
             const double xmax_j = (pj1[0] > pj0[0]) ? pj1[0] : pj0[0];
             const double xmin_j = (pj1[0] < pj0[0]) ? pj1[0] : pj0[0];
             const double ymax_j = (pj1[1] > pj0[1]) ? pj1[1] : pj0[1];
-- 
2.43.0


From 98aaa580df877f660401b45cb3aad199029ea1e2 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 33/79] fix: ResamplingLoop lost points if the loop is not in
 the order of the points

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index f08ea82..8b272ab 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From 315523974ebe66f94ad4cdc367bbd2e916780453 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 34/79] fix: SecondMomentOfArea_Polygon left the moments unset
 if all axes are principal

---
 include/delfem2/geo_polygon2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 8b272ab..7b45c28 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -225,6 +225,7 @@ void delfem2::SecondMomentOfArea_Polygon(
   if (fabs(Ix - Iy) + fabs(Ixy) < 1.0e-20) {
     pa1 = CVec2<T>(1, 0);
     pa2 = CVec2<T>(0, 1);
+    I1 = I2 = Ix;
     return;
   }
   double phi = 0.5 * atan2(-2 * Ixy, Ix - Iy);
-- 
2.43.0


From acc5eda2f1c3a8c0735af8c99aa5880de69349b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 35/79] fix: Hessian of the edge-edge CCD iteration multiplied
 two terms that have to be added

---
 include/delfem2/geo_ccd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index b6c8009..518f403 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -163,7 +163,7 @@ DFM2_INLINE double delfem2::Nearest_LineSeg_LineSeg_CCD_Iteration(
     double R[3] = {v0.dot(ds), v0.dot(dt), v0.dot(du)};
     double A[9] = {
       ds.dot(ds), ds.dot(dt), ds.dot(du) + v0.dot(dsu),
-      dt.dot(ds), dt.dot(dt), dt.dot(du) * v0.dot(dtu),
+      dt.dot(ds), dt.dot(dt), dt.dot(du) + v0.dot(dtu),
       du.dot(ds) + v0.dot(dsu), du.dot(dt) + v0.dot(dtu), du.dot(du)};
     {
       double eps = (A[0] + A[4] + A[8]) * 1.0e-10 + 1.0e-20;
-- 
2.43.0


From c98d484f2862f7e85a7fd0033c4aa1da6cc6a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:37 +0000
Subject: [PATCH 36/79] fix: FindCoplanerInterp missed a double root of a
 quadratic polynomial

---
 include/delfem2/geo_ccd.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/geo_ccd.cpp b/include/delfem2/geo_ccd.cpp
index 518f403..b989bd0 100644
--- a/include/delfem2/geo_ccd.cpp
+++ b/include/delfem2/geo_ccd.cpp
@@ -255,6 +255,10 @@ bool delfem2::FindCoplanerInterp(
     const double r2 = -k1 / (2 * k2); // extreme valuse
     if (r2 > 0 && r2 < 1) {
       const double f2 = lcl::EvaluateCubic(r2, k0, k1, k2, k3);
+      if (f2 == 0) {
+        r = r2;
+        return true;
+      }
       if (f0 * f2 < 0) {
         r = lcl::FindRootCubic_Bisect(r0, r2, f0, f2, k0, k1, k2, k3);
         return true;
-- 
2.43.0


From 3ca612a1f42c39a90d01945c124ffb5dc8a2b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 37/79] fix: CVec3 lacked SizeAtCompileTime, the AABB functions
 did not compile with it

---
 include/delfem2/vec3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/vec3.h b/include/delfem2/vec3.h
index d8ee52e..f87399c 100644
--- a/include/delfem2/vec3.h
+++ b/include/delfem2/vec3.h
@@ -257,6 +257,7 @@ class CVec3 {
   }
 
   using Scalar = T;
+  static constexpr int SizeAtCompileTime = 3;  // size of vector evaluated at compile time
   using value_type = Scalar;
   static constexpr T NEARLY_ZERO = static_cast<T>(1.e-16);
 
-- 
2.43.0


From d5e50cb86696419bb068dee88a184c503c71528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 38/79] fix: assignment operator of CMatrixSparse used
 nonexistent members, it did not compile

---
 include/delfem2/ls_block_sparse.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..f8c8e1a 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -59,14 +59,14 @@ class CMatrixSparse {
    * @param m
    */
   void operator=(const CMatrixSparse &m) {
-    this->nrowblk = m.nrowblk;
-    this->nrowdim = m.nrowdim;
-    this->ncolblk = m.ncolblk;
-    this->ncoldim = m.ncoldim;
-    col_ind_ = m.colInd;
-    row_ptr_ = m.rowPtr;
-    val_crs_ = m.valCrs;
-    val_dia_ = m.valDia; // copy value
+    this->nrowblk_ = m.nrowblk_;
+    this->nrowdim_ = m.nrowdim_;
+    this->ncolblk_ = m.ncolblk_;
+    this->ncoldim_ = m.ncoldim_;
+    col_ind_ = m.col_ind_;
+    row_ptr_ = m.row_ptr_;
+    val_crs_ = m.val_crs_;
+    val_dia_ = m.val_dia_; // copy value
   }
 
   void SetPattern(
-- 
2.43.0


From aa606be658937e5504e3497ade2e270acec30903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 39/79] fix: AddDia_LumpedMass used nonexistent members, it did
 not compile

---
 include/delfem2/ls_block_sparse.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index f8c8e1a..3e5255f 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -172,10 +172,10 @@ class CMatrixSparse {
   void AddDia_LumpedMass(
       const T *lm,
       double scale) {
-    assert(this->nblk_row == this->nblk_col);
-    assert(this->len_row == this->nrowdim);
+    assert(this->nrowblk_ == this->ncolblk_);
+    assert(this->nrowdim_ == this->ncoldim_);
     const int blksize = nrowdim_ * ncoldim_;
-    const int nlen = this->nrowdim;
+    const int nlen = this->nrowdim_;
     if (val_dia_.empty()) { return; }
     for (unsigned int iblk = 0; iblk < nrowblk_; ++iblk) {
       for (int ilen = 0; ilen < nlen; ++ilen) {
-- 
2.43.0


From 9e7ef3b1d51b7c6578e5b625728d4dc5c9723c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 40/79] fix: merging into the sparse matrix took the wrong
 block if the row and column lists differ

---
 include/delfem2/ls_block_sparse.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 3e5255f..74181a9 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -215,7 +215,7 @@ bool Mearge(
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
   assert(blksize == A.nrowdim_ * A.ncoldim_);
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -318,7 +318,7 @@ bool Merge(
     std::vector<unsigned int> &merge_buffer) {
   assert(!A.val_crs_.empty());
   assert(!A.val_dia_.empty());
-  merge_buffer.resize(A.ncolblk_);
+  merge_buffer.resize(A.ncolblk_, UINT_MAX);
   const unsigned int *colind = A.col_ind_.data();
   const unsigned int *rowptr = A.row_ptr_.data();
   T *vcrs = A.val_crs_.data();
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From 955bca9996fec58c427d29054d69eeb3f116f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 41/79] fix: pattern of the master-slave constraints missed the
 columns of the merged rows

---
 include/delfem2/ls_masterslave.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..f2510fb 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -46,6 +46,16 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
       mapM2S[ino0].push_back(ino1);
     }
   }
+  // columns (including the diagonal) of the rows that are merged into the row "ino0"
+  const auto merged_columns = [&](unsigned int ino0) {
+    std::vector<unsigned int> columns(1, ino0);
+    columns.insert(columns.end(), psup0+psup_ind0[ino0], psup0+psup_ind0[ino0+1]);
+    for(const int ino1 : mapM2S[ino0]){
+      columns.push_back(ino1);
+      columns.insert(columns.end(), psup0+psup_ind0[ino1], psup0+psup_ind0[ino1+1]);
+    }
+    return columns;
+  };
   //
   index.assign(nno+1,0);
   array.clear();
@@ -72,8 +82,7 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
         index[ino0+1]++;
       }
     }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
+    for(const unsigned int jno : merged_columns(ino0)){
       for(unsigned int jdim=0;jdim<ndim;++jdim){
         unsigned int kdof = aMSFlag[jno*ndim+jdim];
         if( kdof == UINT_MAX ) continue;
@@ -117,8 +126,7 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
         index[ino0]++;
       }
     }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
+    for(const unsigned int jno : merged_columns(ino0)){
       for(unsigned int jdim=0;jdim<ndim;++jdim){
         unsigned int kdof = aMSFlag[jno*ndim+jdim];
         if( kdof == UINT_MAX ) continue;
-- 
2.43.0


From 4a66554ae653589f6d406e138edafe11882e9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 42/79] fix: Merge of the pentadiagonal solver ran over the
 columns with the number of rows

---
 include/delfem2/ls_pentadiagonal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_pentadiagonal.h b/include/delfem2/ls_pentadiagonal.h
index 805b2e5..d677117 100644
--- a/include/delfem2/ls_pentadiagonal.h
+++ b/include/delfem2/ls_pentadiagonal.h
@@ -159,7 +159,7 @@ class LinearSystemSolver_BlockPentaDiagonal {
         double *p = dia.GetValuePointer(aIpRow[irow], aIpCol[icol]);
         assert(p != nullptr);
         for (int i = 0; i < ndimrow; ++i) {
-          for (int j = 0; j < ndimrow; ++j) {
+          for (int j = 0; j < ndimcol; ++j) {
             p[i * ndim_ + j] += emat[irow][icol][i][j];
           }
         }
-- 
2.43.0


From d4d27c18bee8200db762e7585945e600175935ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 43/79] fix: copy constructor of the ILU preconditioner used a
 nonexistent member, it did not compile

---
 include/delfem2/ls_ilu_block_sparse.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..0f6310b 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -135,13 +135,13 @@ class CRowLevNext {
 template<typename T>
 delfem2::CPreconditionerILU<T>::CPreconditionerILU(
     const CPreconditionerILU<T> &p) {
-//  std::cout << "CPreconditionerILU -- construct copy" << std::endl;
-  this->mat = p.mat; // deep copy
-  assert(nblk == this->mat.nblk_col);
-  this->m_diaInd.resize(nblk);
-  for (int iblk = 0; iblk < nblk; ++iblk) {
-    this->m_diaInd[iblk] = p.m_diaInd[iblk];
-  }
+  nblk = p.nblk;
+  ndim = p.ndim;
+  colInd = p.colInd;
+  rowPtr = p.rowPtr;
+  m_diaInd = p.m_diaInd;
+  valCrs = p.valCrs;
+  valDia = p.valDia;
 }
 
 // -------------------------------------------------------------------
-- 
2.43.0


From f5bbc3b9f2ca0008f834896d7ddd4767bb39cabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 44/79] fix: Initialize_ILUk read out of bounds for a row
 without off-diagonal entries

---
 include/delfem2/ls_ilu_block_sparse.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 0f6310b..78db4d8 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -883,6 +883,11 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
   m_diaInd.resize(nblk);
 
   for (unsigned int iblk = 0; iblk < nblk; ++iblk) {
+    if (m.col_ind_[iblk + 1] == m.col_ind_[iblk]) { // row without off-diagonal entry
+      colInd[iblk + 1] = colInd[iblk];
+      m_diaInd[iblk] = colInd[iblk];
+      continue;
+    }
     std::vector<ilu::CRowLevNext> listNonzero;
     {  // copy row pattern of input matrix into listNonzero
       listNonzero.resize(m.col_ind_[iblk + 1] - m.col_ind_[iblk]);
-- 
2.43.0


From a06cd988f30cc30c4e091b934d5007bf948d9043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 45/79] fix: BiCGSTAB divided zero by zero if the residual
 vanished at the half step

---
 include/delfem2/vecxitrsol.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 84d79fa..3953cda 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -247,7 +247,7 @@ std::vector<REAL> Solve_BiCGStab(
     { // omega = ({As},{s}) / ({As},{As})
       const double denominator = Dot(As_vec, As_vec);
       const double numerator = Dot(As_vec, s_vec);
-      omega = numerator / denominator;
+      omega = (denominator > 0.) ? numerator / denominator : 0.; // zero if {s} is already zero
     }
     // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
@@ -321,8 +321,12 @@ Solve_BiCGSTAB_Complex(
     mat.MatVec(As_vec.data(),
                1.0, s_vec.data(), 0.0);
     // calc omega
-    const COMPLEX omega = Dot(s_vec, As_vec) / Dot(As_vec, As_vec).real();  // omega=({As},{s})/({As},{As})
-                                                                                        // ix += alpha*{p} + omega*{s} (update solution)
+    COMPLEX omega = 0.0;  // zero if {s} is already zero
+    { // omega=({As},{s})/({As},{As})
+      const double denominator = Dot(As_vec, As_vec).real();
+      if (denominator > 0.) { omega = Dot(s_vec, As_vec) / denominator; }
+    }
+    // ix += alpha*{p} + omega*{s} (update solution)
     AXPY(alpha, p_vec, x_vec);
     AXPY(omega, s_vec, x_vec);
     // {r} = {s} - omega*{As} (update residual)
@@ -410,7 +414,7 @@ std::vector<double> Solve_PBiCGStab(
     {  // calc omega
       const double denominator = Dot(AMs_vec,AMs_vec);
       const double numerator = Dot(s_vec,AMs_vec);
-      omega = numerator / denominator;
+      omega = (denominator > 0.) ? numerator / denominator : 0.; // zero if {s} is already zero
     }
     AXPY(alpha,Mp_vec.data(),x_vec,ndof);
     AXPY(omega,Ms_vec.data(),x_vec,ndof);
-- 
2.43.0


From 1d45b8b3f23b7e6b0a5d36eea936b5f145504f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 46/79] fix: complex Krylov solvers used nonexistent members,
 they did not compile

---
 include/delfem2/vecxitrsol.h | 64 +++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/include/delfem2/vecxitrsol.h b/include/delfem2/vecxitrsol.h
index 3953cda..6c8c195 100755
--- a/include/delfem2/vecxitrsol.h
+++ b/include/delfem2/vecxitrsol.h
@@ -157,18 +157,18 @@ Solve_CG_Complex(
     const MAT& mat)
 {
   using COMPLEX = std::complex<REAL>;
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   std::vector<double> aConv;
   u_vec.assign(ndof, 0.0);   // {x} = 0
   double sqnorm_res = Dot(r_vec, r_vec).real();
   if (sqnorm_res < 1.0e-30) { return aConv; }
   const double inv_sqnorm_res_ini = 1.0 / sqnorm_res;
-  COMPLEX Ap_vec(ndof);
-  COMPLEX p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
+  std::vector<COMPLEX> Ap_vec(ndof);
+  std::vector<COMPLEX> p_vec = r_vec;// {p} = {r} (Set Initial Serch Direction)
   for (unsigned int iitr = 0; iitr < max_iteration; iitr++) {
     double alpha;
     {  // alpha = (r,r) / (p,Ap)
@@ -182,7 +182,7 @@ Solve_CG_Complex(
     AXPY(COMPLEX(+alpha), p_vec, u_vec);    // {x} = +alpha*{ p} + {x} (updatex)
     AXPY(COMPLEX(-alpha), Ap_vec, r_vec);  // {r} = -alpha*{Ap} + {r}
     double sqnorm_res_new = Dot(r_vec, r_vec).real();
-    const double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res_ini);
+    const double conv_ratio = sqrt(sqnorm_res_new * inv_sqnorm_res_ini);
     aConv.push_back(conv_ratio);
     if (conv_ratio < conv_ratio_tol) { return aConv; }
     { // update p
@@ -285,10 +285,10 @@ Solve_BiCGSTAB_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   //
-  assert(!mat.valDia.empty());
-  assert(mat.nblk_col == mat.nblk_row);
-  assert(mat.nrowdim == mat.len_row);
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  assert(!mat.val_dia_.empty());
+  assert(mat.nrowblk_ == mat.ncolblk_);
+  assert(mat.nrowdim_ == mat.ncoldim_);
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   assert(r_vec.size() == ndof);
   
   std::vector<double> aConv;
@@ -451,17 +451,17 @@ std::vector<double> Solve_PBiCGStab_Complex(
 {
   using COMPLEX = std::complex<REAL>;
   
-  assert( !mat.valDia.empty() );
-  assert( mat.nblk_col == mat.nblk_row );
-  assert( mat.nrowdim == mat.len_row );
-  const unsigned int ndof = mat.nblk_col*mat.nrowdim;
+  assert( !mat.val_dia_.empty() );
+  assert( mat.nrowblk_ == mat.ncolblk_ );
+  assert( mat.nrowdim_ == mat.ncoldim_ );
+  const unsigned int ndof = mat.nrowblk_*mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for(unsigned int i=0;i<ndof;++i){ x_vec[i] = COMPLEX(0.0,0.0); }   // {u} = 0
   
   double sq_inv_norm_res_ini;
   {
-    const double sq_norm_res_ini = Dot(r_vec,r_vec,ndof).real();
+    const double sq_norm_res_ini = DotX(r_vec,r_vec,ndof).real();
     if( sq_norm_res_ini < 1.0e-60 ){
       aResHistry.push_back( sqrt( sq_norm_res_ini ) );
       return aResHistry;
@@ -479,12 +479,12 @@ std::vector<double> Solve_PBiCGStab_Complex(
   std::vector<COMPLEX> p_vec(r_vec,r_vec+ndof);  // {p} = {r}
   
   // calc (r,r0*)
-  COMPLEX r_r0 = Dot(r_vec,r0_vec.data(),ndof);
+  COMPLEX r_r0 = DotX(r_vec,r0_vec.data(),ndof);
   
   for(unsigned int itr=0;itr<max_niter;itr++){
     // {Mp_vec} = [M^-1]*{p}
     Mp_vec.assign(p_vec.begin(),p_vec.end());
-    ilu.SolvePrecond(Mp_vec);
+    ilu.SolvePrecond(Mp_vec.data());
     // calc {AMp_vec} = [A]*{Mp_vec}
     mat.MatVec(AMp_vec.data(),
                COMPLEX(1,0), Mp_vec.data(), COMPLEX(0,0));
@@ -495,22 +495,26 @@ std::vector<double> Solve_PBiCGStab_Complex(
     AXPY(-alpha,AMp_vec,s_vec);
     // {Ms_vec} = [M^-1]*{s}
     Ms_vec.assign(s_vec.begin(),s_vec.end());
-    ilu.SolvePrecond(Ms_vec);
+    ilu.SolvePrecond(Ms_vec.data());
     // calc {AMs_vec} = [A]*{Ms_vec}
     mat.MatVec(AMs_vec.data(),
                COMPLEX(1,0),Ms_vec.data(), COMPLEX(0,0));
-    const COMPLEX omega = Dot(s_vec,AMs_vec) / Dot(AMs_vec,AMs_vec).real();
+    COMPLEX omega = 0.0;  // zero if {s} is already zero
+    {
+      const double denominator = Dot(AMs_vec,AMs_vec).real();
+      if( denominator > 0. ){ omega = Dot(s_vec,AMs_vec) / denominator; }
+    }
     for(unsigned int i=0;i<ndof;++i){ x_vec[i] = x_vec[i]+alpha*Mp_vec[i]+omega*Ms_vec[i]; }
     for(unsigned int i=0;i<ndof;++i){ r_vec[i] = s_vec[i]-omega*AMs_vec[i]; }
     {
-      const double sq_norm_res = Dot(r_vec,r_vec,ndof).real();
+      const double sq_norm_res = DotX(r_vec,r_vec,ndof).real();
       const double conv_ratio = sqrt(sq_norm_res * sq_inv_norm_res_ini);
       aResHistry.push_back( conv_ratio );
       if( conv_ratio < conv_ratio_tol ){ return aResHistry; }
     }
     COMPLEX beta;
     {  // calc beta
-      const COMPLEX tmp1 = Dot(r_vec,r0_vec.data(),ndof);
+      const COMPLEX tmp1 = DotX(r_vec,r0_vec.data(),ndof);
       beta = (tmp1*alpha)/(r_r0*omega);
       r_r0 = tmp1;
     }
@@ -532,14 +536,14 @@ std::vector<double> Solve_PCG_Complex(
 {
   using COMPLEX = std::complex<REAL>;
 
-  const unsigned int ndof = mat.nblk_col * mat.nrowdim;
+  const unsigned int ndof = mat.nrowblk_ * mat.nrowdim_;
   std::vector<double> aResHistry;
   
   for (unsigned int i = 0; i < ndof; i++) { x_vec[i] = COMPLEX(0.0, 0.0); }    // {x} = 0
   
   double inv_sqnorm_res0;
   {
-    const double sqnorm_res0 = Dot(r_vec, r_vec, ndof).real();
+    const double sqnorm_res0 = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqnorm_res0);
     if (sqnorm_res0 < 1.0e-30) { return aResHistry; }
     inv_sqnorm_res0 = 1.0 / sqnorm_res0;
@@ -547,11 +551,11 @@ std::vector<double> Solve_PCG_Complex(
   
   // {Pr} = [P]{r}
   std::vector<COMPLEX> Pr_vec(r_vec, r_vec + ndof);
-  ilu.SolvePrecond(Pr_vec);
+  ilu.SolvePrecond(Pr_vec.data());
   // {p} = {Pr}
   std::vector<COMPLEX> p_vec = Pr_vec;
   // rPr = ({r},{Pr})
-  COMPLEX rPr = Dot(r_vec, Pr_vec.data(), ndof);
+  COMPLEX rPr = DotX(r_vec,Pr_vec.data(), ndof);
   for (unsigned int iitr = 0; iitr < max_nitr; iitr++) {
     {
       std::vector<COMPLEX> &Ap_vec = Pr_vec;
@@ -565,7 +569,7 @@ std::vector<double> Solve_PCG_Complex(
       AXPY(+alpha, p_vec.data(), x_vec, ndof);       // {x} = +alpha*{p } + {x}
     }
     {  // Converge Judgement
-      double sqnorm_res = Dot(r_vec, r_vec, ndof).real();
+      double sqnorm_res = DotX(r_vec, r_vec, ndof).real();
       double conv_ratio = sqrt(sqnorm_res * inv_sqnorm_res0);
       aResHistry.push_back(conv_ratio);
       if (conv_ratio < conv_ratio_tol) { return aResHistry; }
@@ -573,9 +577,9 @@ std::vector<double> Solve_PCG_Complex(
     {  // calc beta
        // {Pr} = [P]{r}
       for (unsigned int i = 0; i < ndof; i++) { Pr_vec[i] = r_vec[i]; }
-      ilu.SolvePrecond(Pr_vec);
+      ilu.SolvePrecond(Pr_vec.data());
       // rPr1 = ({r},{Pr})
-      const COMPLEX rPr1 = Dot(r_vec, Pr_vec.data(), ndof);
+      const COMPLEX rPr1 = DotX(r_vec,Pr_vec.data(), ndof);
       // beta = rPr1/rPr
       COMPLEX beta = rPr1 / rPr;
       rPr = rPr1;
@@ -585,7 +589,7 @@ std::vector<double> Solve_PCG_Complex(
   }
   {
     // Converge Judgement
-    double sq_norm_res = Dot(r_vec, r_vec, ndof).real();
+    double sq_norm_res = DotX(r_vec, r_vec, ndof).real();
     aResHistry.push_back(sqrt(sq_norm_res));
   }
   return aResHistry;
-- 
2.43.0


From 5ce818f10f826c61326cfe9b1902a9b00fd8ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 47/79] fix: Distance returned the squared distance

---
 include/delfem2/vecxitrsol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/vecxitrsol.cpp b/include/delfem2/vecxitrsol.cpp
index e025f0b..f52a462 100755
--- a/include/delfem2/vecxitrsol.cpp
+++ b/include/delfem2/vecxitrsol.cpp
@@ -102,7 +102,7 @@ T delfem2::Distance(
   const size_t n = va.size();
   T r = 0.0;
   for (unsigned i = 0; i < n; i++) { r += (va[i] - vb[i]) * (va[i] - vb[i]); }
-  return r;
+  return std::sqrt(r);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template float delfem2::Distance(
-- 
2.43.0


From 25570a4fdaab02b62e5848e21b0db2c08799eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:57 +0000
Subject: [PATCH 48/79] fix: Mearge of the sparse matrix took the wrong
 diagonal block if the row and column lists differ

---
 include/delfem2/ls_block_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 74181a9..eca9f94 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
-- 
2.43.0


From 6d48c143423c0e1d127004bafe1481d662bd9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 49/79] fix: MaxLength of a box returned the shortest side if
 the two others are equal

---
 include/delfem2/srch_bv3_aabb.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_bv3_aabb.h b/include/delfem2/srch_bv3_aabb.h
index 5ed4fcd..31bffbf 100755
--- a/include/delfem2/srch_bv3_aabb.h
+++ b/include/delfem2/srch_bv3_aabb.h
@@ -53,8 +53,8 @@ class CBV3_AABB {
     REAL x0 = bbmax[0] - bbmin[0];
     REAL y0 = bbmax[1] - bbmin[1];
     REAL z0 = bbmax[2] - bbmin[2];
-    if (x0 > y0 && x0 > z0) { return x0; }
-    else if (y0 > x0 && y0 > z0) { return y0; }
+    if (x0 >= y0 && x0 >= z0) { return x0; }
+    else if (y0 >= x0 && y0 >= z0) { return y0; }
     return z0;
   }
   void SetCenterWidth(REAL cx, REAL cy, REAL cz,
-- 
2.43.0


From ddbffc63ba1bf52d09a4d03841916e21dbab2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 50/79] fix: candidates removed by the k-d tree of triangles
 were not erased

---
 include/delfem2/srch_kdtree_tri.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..f82c55f 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -113,9 +113,9 @@ struct KDTTriangle {
 		} else if (distfromcenter.min < localmin) {
 			localmax = distfromcenter.max;
 			localmin = distfromcenter.min;
-			std::remove_if(Candidates.begin(), Candidates.end(), [localmax](iss x) {
+			Candidates.erase(std::remove_if(Candidates.begin(), Candidates.end(), [localmax](iss x) {
 				return localmax < x.min - 0.001;
-			});
+			}), Candidates.end());
 			Candidates.push_back({ currentInd, distfromcenter.max, distfromcenter.min });
 		} else if (distfromcenter.min < localmax) {
 			Candidates.push_back({ currentInd, distfromcenter.max, distfromcenter.min });
-- 
2.43.0


From 8edad5ad94f7507d0fd2e056ffb6529e21b29bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 51/79] fix: k-d tree of triangles took the nearest corner for
 the nearest point of a box

---
 include/delfem2/srch_kdtree_tri.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index f82c55f..9e4e179 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -45,7 +45,6 @@ struct KDTTriangle {
 				SCALAR max, min;
 			} dist;
 
-			dist.min = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 			dist.max = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 
 			for (int i = 0; i < 8; i++) {
@@ -55,14 +54,15 @@ struct KDTTriangle {
 
 				SCALAR hogedist = (Q - VEC { hogex, hogey, hogez }).norm();
 
-				if (hogedist < dist.min)
-					dist.min = hogedist;
 				if (hogedist > dist.max)
 					dist.max = hogedist;
 			}
 
-			if (Q[0] < AABBmax[0] && Q[0] > AABBmin[0] && Q[1] < AABBmax[1] && Q[1] > AABBmin[1] && Q[2] < AABBmax[2] && Q[2] > AABBmin[2])
-				dist.min = 0.0;
+			// the nearest point of the box is not a corner in general
+			dist.min = (Q - VEC {
+				std::min(std::max(Q[0], AABBmin[0]), AABBmax[0]),
+				std::min(std::max(Q[1], AABBmin[1]), AABBmax[1]),
+				std::min(std::max(Q[2], AABBmin[2]), AABBmax[2]) }).norm();
 
 			return dist;
 		}
-- 
2.43.0


From 465225a6e430caeec8e5bc64e7f91ef85c58de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:02 +0000
Subject: [PATCH 52/79] fix: a leaf volume of a point kept the volume it had
 before

---
 include/delfem2/srch_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..306caa4 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -174,6 +174,7 @@ public:
   void SetVolume(BBOX& bb,
 	  unsigned int ielem) const {
     assert( ielem < nXYZ );
+    bb.Set_Inactive();
     bb.AddPoint(aXYZ+ielem*3, 0.0);
     return;
   }
-- 
2.43.0


From 7c7db05dc65be700a4acca6f0c4a5d3b419f7c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 53/79] fix: BVHTopology_Morton left the root of a single
 object uninitialised

---
 include/delfem2/srch_bvh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..591b2ae 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -448,6 +448,11 @@ DFM2_INLINE void delfem2::BVHTopology_Morton(
   assert(!sorted_morton_codes.empty());
   bvh_nodes.resize(sorted_morton_codes.size() * 2 - 1);
   bvh_nodes[0].iparent = UINT_MAX;
+  if (sorted_morton_codes.size() == 1) { // the root is the only leaf
+    bvh_nodes[0].ichild[0] = sorted_object_indexes[0];
+    bvh_nodes[0].ichild[1] = UINT_MAX;
+    return;
+  }
   const auto nni = static_cast<unsigned int>(sorted_morton_codes.size() - 1); // number of internal node
   for (unsigned int ini = 0; ini < nni; ++ini) {
     const std::pair<unsigned int, unsigned int>
-- 
2.43.0


From a37c84fd0bf9661433e36639c455530ccd40f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 54/79] fix: top-down construction of the BVH aborted on equal
 extents, coincident centers and a single element

---
 include/delfem2/srch_bvh.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index 591b2ae..85e6d18 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -66,9 +66,9 @@ DFM2_INLINE void DevideElemAryConnex(
     double lenx = x_max - x_min;
     double leny = y_max - y_min;
     double lenz = z_max - z_min;
-    if (lenx > leny && lenx > lenz) { dir[0] = 1; }
-    if (leny > lenz && leny > lenx) { dir[1] = 1; }
-    if (lenz > lenx && lenz > leny) { dir[2] = 1; }
+    if (lenx >= leny && lenx >= lenz) { dir[0] = 1; }
+    else if (leny >= lenz) { dir[1] = 1; }
+    else { dir[2] = 1; }
   }
   double org[3] = {(x_min + x_max) * 0.5, (y_min + y_max) * 0.5, (z_min + z_max) * 0.5};
   unsigned int itri_ker = UINT_MAX;
@@ -112,6 +112,7 @@ DFM2_INLINE void DevideElemAryConnex(
           mat[1][0] * dir[0] + mat[1][1] * dir[1] + mat[1][2] * dir[2],
           mat[2][0] * dir[0] + mat[2][1] * dir[1] + mat[2][2] * dir[2]};
       double len = sqrt(tmp[0] * tmp[0] + tmp[1] * tmp[1] + tmp[2] * tmp[2]);
+      if (len <= 0) { break; } // all the centers are at the same place
       dir[0] = tmp[0] / len;
       dir[1] = tmp[1] / len;
       dir[2] = tmp[2] / len;
@@ -128,6 +129,9 @@ DFM2_INLINE void DevideElemAryConnex(
       break;
     }
   }
+  // there is no direction to separate elements at the same place. put only the first one in the child node 0
+  const bool is_separable = (itri_ker != UINT_MAX);
+  if (!is_separable) { itri_ker = list[0]; }
   const auto inode_ch0 = static_cast<unsigned int>(aNodeBVH.size());
   const auto inode_ch1 = static_cast<unsigned int>(aNodeBVH.size() + 1);
   aNodeBVH.resize(aNodeBVH.size() + 2);
@@ -142,7 +146,7 @@ DFM2_INLINE void DevideElemAryConnex(
     aElem2Node[itri_ker] = inode_ch0;
     list_ch0.push_back(itri_ker);
     std::stack<unsigned int> stack;
-    stack.push(itri_ker);
+    if (is_separable) { stack.push(itri_ker); }
     while (!stack.empty()) {
       unsigned int itri0 = stack.top();
       stack.pop();
@@ -278,6 +282,11 @@ DFM2_INLINE int delfem2::BVHTopology_TopDown_MeshElem(
   aElem2Node.resize(nelem, 0);
   aNodeBVH.resize(1);
   aNodeBVH[0].iparent = UINT_MAX;
+  if (nelem == 1) { // the root is the only leaf
+    aNodeBVH[0].ichild[0] = 0;
+    aNodeBVH[0].ichild[1] = UINT_MAX;
+    return 0;
+  }
   bvh::DevideElemAryConnex(
       0, aElem2Node, aNodeBVH,
       list, static_cast<int>(nfael), aElSuEl, aElemCenter);
-- 
2.43.0


From 757f14c5c90198807be0a912beeeee15329e55a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 55/79] fix: JArrayEdgeUnidir_PointSurPoint kept the counts of
 the reused output array

---
 include/delfem2/jagarray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From 32e47823f5967e66c601f341fecf7ad929702d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 56/79] fix: JArrayEdge_MeshElem kept the entries of the reused
 output array

---
 include/delfem2/msh_topology_uniform.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..fa7a8f0 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -373,6 +373,7 @@ DFM2_INLINE void delfem2::JArrayEdge_MeshElem(
   const std::size_t nPoint0 = elsup_ind.size() - 1;
   edge_ind.resize(nPoint0 + 1);
   edge_ind[0] = 0;
+  edge.clear();
   for (unsigned int ip = 0; ip < nPoint0; ++ip) {
     std::set<unsigned int> setIP;
     for (unsigned int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
-- 
2.43.0


From e6d06f7f6e933c70457251e6dbe59ae157bb5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 57/79] fix: UnifySeparateIndexing_PosTex aborted when a vertex
 has several texture coordinates

---
 include/delfem2/msh_topology_uniform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index fa7a8f0..cc2cf35 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -540,7 +540,7 @@ void delfem2::UnifySeparateIndexing_PosTex(
       for(unsigned jtri : tris){
         const unsigned int jno = FindIndexTri(elem_vtx_xyz.data()+jtri*3, ixyz);
         assert( elem_vtx_xyz[jtri*3+jno] == ixyz );
-        assert( elem_vtx_tex[jtri*3+jno] == itex );
+        if( elem_vtx_tex[jtri*3+jno] != itex ){ continue; } // itex is used at another corner
         assert( tri_uni[jtri*3+jno] == UINT_MAX );
         tri_uni[jtri*3+jno] = iuni;
       }
-- 
2.43.0


From f943f2a0e7de9f2af6dad27fd619212f09727290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 58/79] fix: edge tables of mesh elements: wrong voxel edges,
 out of bounds for pyramid, wedge, voxel and line

---
 include/delfem2/mshelm.h | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index e045794..c6bf351 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -129,14 +129,15 @@ const int noelElemFace_Wed[5][4] = {
   { 3, 5, 4,-1}
 };
 
-const int mapMeshElemType2NEdgeElem[7] = {
+const int mapMeshElemType2NEdgeElem[8] = {
   3, // TRI
   6, // TET
   4, // QUAD
   12, // HEX
   8, // PYRAM
   9, // WEDGE
-  12  // VOX
+  12, // VOX
+  1   // LINE
 };
 const int noelElemEdge_Tri[3][2] = {
   { 0, 1},
@@ -162,11 +163,22 @@ const int noelElemEdge_Hex[12][2] = {
   {4,5},{5,6},{6,7},{7,4},
   {0,4},{1,5},{2,6},{3,7}
 };
-// TODO: this looks wrong...
-const int noelElemEdge_Vox[12][2] = {
-  {0,1},{3,2},{4,5},{7,6},
-  {0,3},{1,2},{4,7},{5,6},
-  {0,4},{1,5},{3,7},{2,6}
+const int noelElemEdge_Pyram[8][2] = {
+  {0,1},{1,2},{2,3},{3,0},
+  {0,4},{1,4},{2,4},{3,4}
+};
+const int noelElemEdge_Wed[9][2] = {
+  {0,1},{1,2},{2,0},
+  {3,4},{4,5},{5,3},
+  {0,3},{1,4},{2,5}
+};
+const int noelElemEdge_Vox[12][2] = { // this numbering is corresponds to VTK_VOX
+  {0,1},{2,3},{4,5},{6,7},
+  {0,2},{1,3},{4,6},{5,7},
+  {0,4},{1,5},{2,6},{3,7}
+};
+const int noelElemEdge_Line[1][2] = {
+  {0,1}
 };
 
 // -----------------------------
@@ -195,11 +207,15 @@ inline const int (*noelElemFace(MESHELEM_TYPE type))[4]
 }
 inline const int (*noelElemEdge(MESHELEM_TYPE type))[2]
 {
-  const int (*noelElemEdge0[4])[2] = {
+  const int (*noelElemEdge0[8])[2] = {
     noelElemEdge_Tri,
     noelElemEdge_Tet,
     noelElemEdge_Quad,
-    noelElemEdge_Hex
+    noelElemEdge_Hex,
+    noelElemEdge_Pyram,
+    noelElemEdge_Wed,
+    noelElemEdge_Vox,
+    noelElemEdge_Line
   };
   return noelElemEdge0[type];
 }
-- 
2.43.0


From 40ef956a549ac67e9c1c1ebaa7d59132f5bbfa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 59/79] fix: JArray_PSuP of dynamic meshes lost neighbors of
 and around point 0 and wrote out of bounds

---
 include/delfem2/dtri_topology.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..70c4a8a 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -101,8 +101,8 @@ DFM2_INLINE void delfem2::JArray_PSuP(
     const unsigned int npoin,
     const std::vector<int> &elsup_ind,
     const std::vector<int> &elsup) {
-  std::vector<unsigned int> aflg(npoin, 0);
-  psup_ind[0] = 0;
+  std::vector<unsigned int> aflg(npoin, UINT_MAX);
+  psup_ind.assign(npoin + 1, 0);
   for (unsigned int ino = 0; ino < npoin; ino++) {
     psup_ind[ino + 1] = psup_ind[ino];
     aflg[ino] = ino;
@@ -117,7 +117,7 @@ DFM2_INLINE void delfem2::JArray_PSuP(
   }
   const int npsup = psup_ind[npoin];
   psup.resize(npsup);
-  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = 0; }
+  for (unsigned int ino = 0; ino < npoin; ino++) { aflg[ino] = UINT_MAX; }
   unsigned int iedge = 0;
   for (unsigned int ino = 0; ino < npoin; ino++) {
     assert(psup_ind[ino] == (int) iedge);
-- 
2.43.0


From a2057d4786da1379ed0edbf2c8fa23fdb8cdab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 60/79] fix: AssertMeshDTri checked the first corner three
 times

---
 include/delfem2/dtri_topology.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 70c4a8a..ca6c971 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -539,8 +539,8 @@ DFM2_INLINE void delfem2::AssertMeshDTri(
   const size_t ntri = aSTri.size();
   for (unsigned int itri = 0; itri < ntri; itri++) {
     assert(aSTri[itri].v[0] < npo);
-    assert(aSTri[itri].v[0] < npo);
-    assert(aSTri[itri].v[0] < npo);
+    assert(aSTri[itri].v[1] < npo);
+    assert(aSTri[itri].v[2] < npo);
   }
   for (unsigned int ipoin = 0; ipoin < npo; ++ipoin) {
     const unsigned int itri0 = aPo3D[ipoin].e;
-- 
2.43.0


From 00c2dd178f26aa42521424c33d4ef5db21a8fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 61/79] fix: FindEdgePoint_AcrossEdge walked around the point
 with the wrong triangle and ran over the boundary

---
 include/delfem2/dtri2_v2dtri.cpp | 37 +++++++-------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..38a6be8 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -76,23 +76,13 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
         }
       }
     }
-    {
-      const unsigned int inotri2 = (inotri_cur + 1) % 3;
-      const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
-      if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
-      assert(itri_nex < aDTri.size());
-      assert(aDTri[itri_nex].v[inotri3] == ipo0);
-      if (itri_nex == itri_ini) {
-        itri0 = 0;
-        inotri0 = 0;
-        inotri1 = 0;
-        ratio = 0.0;
-        return false;
-      }
-      itri_cur = itri_nex;
-      inotri_cur = inotri3;
+    if (!MoveCCW(itri_cur, inotri_cur, UINT_MAX, aDTri)) { break; } // reached the boundary
+    if (itri_cur == itri_ini) { // went around the point
+      itri0 = 0;
+      inotri0 = 0;
+      inotri1 = 0;
+      ratio = 0.0;
+      return false;
     }
   }
 
@@ -120,18 +110,7 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
         }
       }
     }
-    {
-      const unsigned int inotri2 = (inotri_cur + 2) % 3;
-      unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
-      unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
-      assert(aDTri[itri_nex].v[inotri3] == ipo0);
-      if (itri_nex == itri_ini) {
-        assert(0);
-      }
-      itri_cur = itri_nex;
-      inotri_cur = inotri3;
-    }
+    if (!MoveCW(itri_cur, inotri_cur, UINT_MAX, aDTri)) { break; } // reached the other boundary
   }
 
   itri0 = 0;
-- 
2.43.0


From 8f4e253179af0cb577767a92a1dacaa792c948c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 62/79] fix: deleting unreferenced points used the old index
 for the point record (out of bounds)

---
 include/delfem2/dtri2_v2dtri.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 38a6be8..5bcf1f6 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -555,9 +555,10 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
-      aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      const unsigned int ipo1 = map_po_del[ipo];
+      aTri_in[itri].v[ifatri] = ipo1;
+      aPo2D[ipo1].e = itri;
+      aPo2D[ipo1].d = ifatri;
     }
   }
 }
@@ -601,9 +602,10 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
   for (unsigned int itri = 0; itri < aTri.size(); itri++) {
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
-      aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      const unsigned int ipo1 = map01[ipo];
+      aTri[itri].v[ifatri] = ipo1;
+      aPo1[ipo1].e = itri;
+      aPo1[ipo1].d = ifatri;
     }
   }
 }
-- 
2.43.0


From ac6d9ef7e4467da85c6d71d435daea8acf8e3667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 63/79] fix: LaplacianArroundPoint turned triangles over

---
 include/delfem2/dtri2_v2dtri.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 5bcf1f6..6364208 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -36,7 +36,15 @@ DFM2_INLINE bool LaplacianArroundPoint
     if (!MoveCCW(itri0, ino0, UINT_MAX, aTri)) { return false; }
     if (itri0 == aPo[ipoin].e) { break; }
   }
-  aVec2[ipoin] = vec_delta / ntri_around;
+  vec_delta /= ntri_around;
+  for (;;) { // do not move the point if that turns over a triangle around it
+    const CVec2d &p1 = aVec2[aTri[itri0].v[(ino0 + 1) % 3]];
+    const CVec2d &p2 = aVec2[aTri[itri0].v[(ino0 + 2) % 3]];
+    if (Area_Tri2(vec_delta, p1, p2) <= 0) { return false; }
+    MoveCCW(itri0, ino0, UINT_MAX, aTri);
+    if (itri0 == aPo[ipoin].e) { break; }
+  }
+  aVec2[ipoin] = vec_delta;
   return true;
 }
 
-- 
2.43.0


From 85a0f3f8ad173737de9870820ea99161e6a8a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 64/79] fix: MergeLinSys_LinearSolid3D_Static_Q1 did not
 compile

---
 include/delfem2/fem_solidlinear.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/fem_solidlinear.h b/include/delfem2/fem_solidlinear.h
index 363d5fa..8ab4886 100644
--- a/include/delfem2/fem_solidlinear.h
+++ b/include/delfem2/fem_solidlinear.h
@@ -251,7 +251,7 @@ void MergeLinSys_LinearSolid3D_Static_Q1(
   const unsigned int np = aXYZ.size()/3;
   const unsigned int nDoF = np*3;
   //
-  mat_A.SetZero();
+  mat_A.setZero();
   vec_b.assign(nDoF, 0.0);
   std::vector<unsigned int> tmp_buffer(np, UINT_MAX);
   for (unsigned int iel = 0; iel<aHex.size()/8; ++iel){
-- 
2.43.0


From 4a25293fb3426b1d45e62bed399e4a9a7142d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 65/79] fix: assembly of the MITC3 plate dropped the elastic
 force of the current deflection

---
 include/delfem2/fem_mitc3.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/fem_mitc3.h b/include/delfem2/fem_mitc3.h
index 06eec03..9ae6853 100644
--- a/include/delfem2/fem_mitc3.h
+++ b/include/delfem2/fem_mitc3.h
@@ -81,9 +81,11 @@ void MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(
         thick, lambda, myu);
     {
       const double A = delfem2::femutil::TriArea2D(P[0], P[1], P[2]);
-      dW[0][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[1][0] = rho * A * thick / 3.0 * gravity_z;
-      dW[2][0] = rho * A * thick / 3.0 * gravity_z;
+      for (auto &dWi : dW) { // residual: weight minus the elastic force
+        dWi[0] = rho * A * thick / 3.0 * gravity_z - dWi[0];
+        dWi[1] = -dWi[1];
+        dWi[2] = -dWi[2];
+      }
     }
     for (unsigned int ino = 0; ino < 3; ino++) {
       const unsigned int ip = aIP[ino];
-- 
2.43.0


From 00e4ba31431e7095a7498a439c4871674ecdb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 66/79] fix: StepTime_InternalDynamics passed the zero vector
 as the residual, the cloth never moved

---
 include/delfem2/cloth_internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index ecdca65..255f5e2 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -165,7 +165,7 @@ void StepTime_InternalDynamics(
     auto vs = delfem2::ViewAsVectorXd(tmp0);
     auto vt = delfem2::ViewAsVectorXd(tmp1);
     Solve_CG(
-        vx,vb,vs,vt,
+        vb,vx,vs,vt,
         conv_ratio, iteration, mat_A);
   }
   std::cout << "  conv_ratio:" << conv_ratio << "  iteration:" << iteration << std::endl;
-- 
2.43.0


From 13805cfe0e75faaf1381a483679e400c0eb7575e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 67/79] fix: cloth time step read the flags per point instead
 of per degree of freedom and moved fixed ones

---
 include/delfem2/cloth_internal.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/delfem2/cloth_internal.h b/include/delfem2/cloth_internal.h
index 255f5e2..bb3ab7c 100755
--- a/include/delfem2/cloth_internal.h
+++ b/include/delfem2/cloth_internal.h
@@ -146,11 +146,9 @@ void StepTime_InternalDynamics(
     mat_A.val_dia_[ip*9+2*3+2] += mass_point / (dt*dt);
   }
   mat_A.SetFixedBC(aBCFlag.data());
-  for(unsigned int ip=0;ip<np;ip++){
-    if( aBCFlag[ip] == 0 ) continue;
-    vec_b[ip*3+0] = 0;
-    vec_b[ip*3+1] = 0;
-    vec_b[ip*3+2] = 0;
+  for(unsigned int i=0;i<nDof;i++){
+    if( aBCFlag[i] == 0 ) continue;
+    vec_b[i] = 0;
   }
   // solve linear system
   std::vector<double> vec_x;
@@ -315,17 +313,15 @@ void UpdateIntermidiateVelocity
   W += AddWdW_Gravity(dW,
                       aXYZ,
                       gravity,mass_point);
-  for(unsigned int ip=0;ip<np;ip++){
-    if( aBCFlag[ip] == 0 ) continue;
-    aUVW[ip*3+0] = 0;
-    aUVW[ip*3+1] = 0;
-    aUVW[ip*3+2] = 0;
-  }
   for(unsigned int ip=0;ip<np;ip++){
     aUVW[ip*3+0] += -(0.5*dt/mass_point)*dW[ip*3+0];
     aUVW[ip*3+1] += -(0.5*dt/mass_point)*dW[ip*3+1];
     aUVW[ip*3+2] += -(0.5*dt/mass_point)*dW[ip*3+2];
   }
+  for(unsigned int i=0;i<nDof;i++){
+    if( aBCFlag[i] == 0 ) continue;
+    aUVW[i] = 0;
+  }
 }
 
 
-- 
2.43.0


From 6c6efa2285a94d09f5fbb5d05540a5380a90a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 68/79] fix: CMat3::SecondInvarint used nonexistent members, it
 did not compile

---
 include/delfem2/mat3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/mat3.h b/include/delfem2/mat3.h
index 3ad583e..2c0776b 100644
--- a/include/delfem2/mat3.h
+++ b/include/delfem2/mat3.h
@@ -235,8 +235,8 @@ class CMat3 {
   }
   [[nodiscard]] double SecondInvarint() const {
     const CMat3 &m2 = (*this) * (*this);
-    const double tr = this->Trace();
-    return 0.5 * (tr * tr - m2.Trace());
+    const double tr = this->trace();
+    return 0.5 * (tr * tr - m2.trace());
   }
   void Print() const {
     std::cout << p_[0] << " " << p_[1] << " " << p_[2] << std::endl;
-- 
2.43.0


From 08aa9c24e361d77f25f2f69c7cc89f927cdd885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 69/79] fix: CMat3::MatMatTrans used nonexistent members, it
 did not compile

---
 include/delfem2/mat3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3.cpp b/include/delfem2/mat3.cpp
index 8926237..23d673d 100644
--- a/include/delfem2/mat3.cpp
+++ b/include/delfem2/mat3.cpp
@@ -185,7 +185,7 @@ delfem2::CMat3<T> delfem2::CMat3<T>::MatMatTrans(const CMat3<T> &mat0) const {
   CMat3 m;
   for (unsigned int i = 0; i < 3; i++) {
     for (unsigned int j = 0; j < 3; j++) {
-      m.mat[i * 3 + j] =
+      m.p_[i * 3 + j] =
           p_[0 * 3 + i] * mat0.p_[0 * 3 + j] +
           p_[1 * 3 + i] * mat0.p_[1 * 3 + j] +
           p_[2 * 3 + i] * mat0.p_[2 * 3 + j];
-- 
2.43.0


From 5827978beb2927c77af3072c18af296b5c29ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 70/79] fix: CMat4::SetQuaternion called a nonexistent
 function, it did not compile

---
 include/delfem2/mat4.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat4.h b/include/delfem2/mat4.h
index 7186624..c2565bb 100644
--- a/include/delfem2/mat4.h
+++ b/include/delfem2/mat4.h
@@ -422,7 +422,7 @@ class CMat4 {
                            x, y, z);
   }
   void SetQuaternion(const REAL *q) {
-    Mat4_Quat(mat,
+    Mat4_AffineQuaternion(mat,
               q);
   }
 
-- 
2.43.0


From 0de7240cc3952edcc9bd7fd5f71f2266520fbf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 71/79] fix: TangentVector_Points3 multiplied the tangent by
 its length instead of normalising it

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..e13f195 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From 38a765f6eb4111128b6943823ad8c07914438a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 72/79] fix: GetCenterWidthGroup read the connectivity with
 three nodes per element

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From c7486ea5ca1c44709907f67a80cc776d0c5b8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 73/79] fix: LaplacianSmoothing turned points without triangles
 into NaN

---
 include/delfem2/mshmisc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..e65426e 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -398,6 +398,7 @@ void delfem2::LaplacianSmoothing(
       pcnt[1] += area * (aP[0][1] + aP[1][1] + aP[2][1]) / 3.0;
       pcnt[2] += area * (aP[0][2] + aP[1][2] + aP[2][2]) / 3.0;
     }
+    if (elsup_ind[ip] == elsup_ind[ip + 1]) { continue; } // no triangle around this point
     pcnt[0] /= sum_area;
     pcnt[1] /= sum_area;
     pcnt[2] /= sum_area;
-- 
2.43.0


From 5ed55b454e7d2ffb8177f8869bd37f35e2ed17ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 74/79] fix: SolidAngleTri3D was wrong for obtuse solid angles

---
 include/delfem2/mshmisc.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index e65426e..a38c9d0 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -518,8 +518,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From 266fefe4ae7c9ca1ade8648207a1cd68df773bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:03 +0000
Subject: [PATCH 75/79] fix: CG_Tri of one triangle used 0.333333 for one third

---
 include/delfem2/msh_center_of_gravity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_center_of_gravity.cpp b/include/delfem2/msh_center_of_gravity.cpp
index c1b40e5..99a9c08 100644
--- a/include/delfem2/msh_center_of_gravity.cpp
+++ b/include/delfem2/msh_center_of_gravity.cpp
@@ -427,9 +427,9 @@ void delfem2::CG_Tri(
   const double q2[3] = {aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]};
   const double q3[3] = {aXYZ[i3 * 3 + 0], aXYZ[i3 * 3 + 1], aXYZ[i3 * 3 + 2]};
 //  double a = TriArea3D(q1, q2, q3);
-  cgx = (q1[0] + q2[0] + q3[0]) * 0.333333;
-  cgy = (q1[1] + q2[1] + q3[1]) * 0.333333;
-  cgz = (q1[2] + q2[2] + q3[2]) * 0.333333;
+  cgx = (q1[0] + q2[0] + q3[0]) / 3;
+  cgy = (q1[1] + q2[1] + q3[1]) / 3;
+  cgz = (q1[2] + q2[2] + q3[2]) / 3;
 }
 
 // -------------------------------
-- 
2.43.0


From 4e0da800ef47451429198c6bce72270d9b70b017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 76/79] fix: CCylinder::IntersectionPoint intersected the line
 with a sphere

---
 include/delfem2/msh_primitive.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 7e33eda..7c0370e 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -880,9 +880,19 @@ template<typename REAL>
 bool delfem2::CCylinder<REAL>::IntersectionPoint(
     double p[3],
     const double o[3], const double d[3]) const {
-  const double q[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
-  const double a = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
-  const double b = q[0] * d[0] + q[1] * d[1] + q[2] * d[2];
+  double q[3] = {o[0] - cent_[0], o[1] - cent_[1], o[2] - cent_[2]};
+  double e[3] = {d[0], d[1], d[2]};
+  { // remove the component along the axis
+    const double dd = dir_[0] * dir_[0] + dir_[1] * dir_[1] + dir_[2] * dir_[2];
+    const double qa = (q[0] * dir_[0] + q[1] * dir_[1] + q[2] * dir_[2]) / dd;
+    const double ea = (e[0] * dir_[0] + e[1] * dir_[1] + e[2] * dir_[2]) / dd;
+    for (unsigned int i = 0; i < 3; ++i) {
+      q[i] -= qa * dir_[i];
+      e[i] -= ea * dir_[i];
+    }
+  }
+  const double a = e[0] * e[0] + e[1] * e[1] + e[2] * e[2];
+  const double b = q[0] * e[0] + q[1] * e[1] + q[2] * e[2];
   const double c = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] - radius_ * radius_;
   const double det = b * b - a * c;
   if (det < 0) return false;
-- 
2.43.0


From 76bb9966d6a85b86acd069658b781d043eb1982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 77/79] fix: CTorus::Projection on the axis ignored the height
 and left the normal unset

---
 include/delfem2/msh_primitive.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/msh_primitive.cpp b/include/delfem2/msh_primitive.cpp
index 7c0370e..758bdf6 100644
--- a/include/delfem2/msh_primitive.cpp
+++ b/include/delfem2/msh_primitive.cpp
@@ -918,12 +918,15 @@ double delfem2::CTorus<REAL>::Projection(
   dir[2] -= t;
   const double len = sqrt(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
   if (len < 1.0e-20) {    // vertical to the center of torus
-    return radius_tube_ - radius_;
+    dir[0] = 1.0; // any direction around the axis
+    dir[1] = 0.0;
+    dir[2] = 0.0;
+  } else {
+    const double invlen = 1.0 / len;
+    dir[0] *= invlen;
+    dir[1] *= invlen;
+    dir[2] *= invlen;
   }
-  const double invlen = 1.0 / len;
-  dir[0] *= invlen;
-  dir[1] *= invlen;
-  dir[2] *= invlen;
   double p[3];
   p[0] = cent_[0] + radius_ * dir[0];
   p[1] = cent_[1] + radius_ * dir[1];
-- 
2.43.0


From b43ff6c17c327bd16c7d74ae3b065eadcb4046e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:16 +0000
Subject: [PATCH 78/79] fix: CBox::Projection returned the inward normal

---
 include/delfem2/msh_primitive.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_primitive.h b/include/delfem2/msh_primitive.h
index 596dc82..daff918 100644
--- a/include/delfem2/msh_primitive.h
+++ b/include/delfem2/msh_primitive.h
@@ -273,9 +273,9 @@ class CBox : public CSDF3 {
       z3 = z2;
     }
     {
-      n[0] = x - x3;
-      n[1] = y - y3;
-      n[2] = z - z3;
+      n[0] = x3 - x;
+      n[1] = y3 - y;
+      n[2] = z3 - z;
       double tmp = 1.0 / sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
       n[0] *= tmp;
       n[1] *= tmp;
-- 
2.43.0


From 1a1678e485c0128f7dbcd631f0c4e077b39ef3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 79/79] fix: singular value decomposition of a rank-one matrix
 with a column along (1,1,1) was not orthogonal

---
 include/delfem2/svd3.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/svd3.cpp b/include/delfem2/svd3.cpp
index c6a5c75..50556cf 100644
--- a/include/delfem2/svd3.cpp
+++ b/include/delfem2/svd3.cpp
@@ -246,9 +246,11 @@ DFM2_INLINE void delfem2::Svd3(
     svd3::Normalize3(u0);
     const double sql1 = svd3::SqLength3(u1);
     if (sql1 < 1.0e-20) {
-      u1[0] = 1.0 - fabs(u0[0]);
-      u1[1] = 1.0 - fabs(u0[1]);
-      u1[2] = 1.0 - fabs(u0[2]);
+      // the axis farthest from u0: it is never parallel to u0
+      const double a0 = fabs(u0[0]), a1 = fabs(u0[1]), a2 = fabs(u0[2]);
+      u1[0] = (a0 <= a1 && a0 <= a2) ? 1.0 : 0.0;
+      u1[1] = (u1[0] == 0.0 && a1 <= a2) ? 1.0 : 0.0;
+      u1[2] = (u1[0] == 0.0 && u1[1] == 0.0) ? 1.0 : 0.0;
     } else {
       svd3::Normalize3(u1);
     }
-- 
2.43.0

