// position-based dynamics: prediction, velocity update, constraint projection
// @stub: pbd_cluster3d /GetRotPolarDecomp/ stub_polar
// @bounded: pbd_rigid3d
// @flags: -DDFM2_HEADER_ONLY
#include "vc.h"
#include "spec.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/pbd_geo3.h"
#include "delfem2/pbd_stvk.h"
#include "delfem2/pbd_bending_for_dtri.h"
namespace d2 = delfem2;
typedef double D; typedef std::vector<D> VD;
static VD vec(int n, const char *name) { VD v(n); vc_reals(v.data(), n, name); return v; }

VC(pbd_predict) {
  const D dt = vc_real("dt"); D g[3]; HAVOC(g); const unsigned np = 1 + vc_choose(3);
  VD x = vec(3*np, "x"), v = vec(3*np, "v"), xt = vec(3*vc_choose(3), "stale"); std::vector<int> bc(np); for (unsigned i = 0; i < np; ++i) bc[i] = (int)vc_choose(3) - 1;
  const VD x0 = x, v0 = v;
  d2::PBD_Pre3D(xt, dt, g, x, v, bc);
  ENSURES_L("one predicted position per point", xt.size() == 3*np);
  for (unsigned i = 0; i < 3*np; ++i) {
    ENSURES_EQ_L("prediction x + dt v + dt^2 g; a fixed point stays", xt[i], bc[i/3] ? x0[i] : x0[i] + dt*v0[i] + dt*dt*g[i%3]);
    ENSURES_EQ_L("state is not modified by the prediction", x[i], x0[i]); ENSURES_EQ_L("velocity is not modified by the prediction", v[i], v0[i]); }
}
VC(pbd_post) {
  const D dt = vc_real("dt"); REQUIRES_POS(dt, 1e-2); const unsigned np = 1 + vc_choose(3);
  VD x = vec(3*np, "x"), v = vec(3*np, "v"), xt = vec(3*np, "xt"); std::vector<int> bc(np); for (unsigned i = 0; i < np; ++i) bc[i] = (int)vc_choose(3) - 1;
  const VD x0 = x, v0 = v;
  d2::PBD_Post(x, v, dt, xt, bc);
  for (unsigned i = 0; i < 3*np; ++i) {
    ENSURES_EQ_L("velocity update (xt - x)/dt, untouched for a fixed point", v[i], bc[i/3] ? v0[i] : (xt[i] - x0[i])/dt);
    ENSURES_EQ_L("position update, untouched for a fixed point", x[i], bc[i/3] ? x0[i] : xt[i]); }
}
// the projection: x -= ratio M^-1 grad^T lambda with (grad M^-1 grad^T) lambda = C
static D det3A(const D *A) { return spec::det3(A); }
template<int NP> static void update_const3() {
  const int NX = NP + 2; D x[NX*3], m[NP], C[3], g[3][NP*3]; HAVOC(x); HAVOC(m); HAVOC(C); vc_reals(&g[0][0], 9*NP, "dC"); const D ratio = vc_real("ratio");
  for (int i = 0; i < NP; ++i) REQUIRES_POS(m[i], 1e-1);
  D A[9]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { A[a*3+b] = 0; for (int i = 0; i < NP*3; ++i) A[a*3+b] += g[a][i]*g[b][i]/m[i/3]; }
  const D det = det3A(A); REQUIRES_POS(det, 1e-3);
  // lambda by Cramer's rule
  D lam[3]; for (int c = 0; c < 3; ++c) { D B[9]; for (int i = 0; i < 9; ++i) B[i] = i%3 == c ? C[i/3] : A[i]; lam[c] = det3A(B)/det; }
  unsigned ip[NP]; for (int i = 0; i < NP; ++i) ip[i] = (unsigned)((i*3 + 1) % (NP + 2 == 6 ? 5 : NX)); D x0[NX*3]; for (int i = 0; i < NX*3; ++i) x0[i] = x[i];
  d2::PBD_Update_Const3(x, NP, 3, m, C, &g[0][0], ip, ratio);
  bool used[NX] = {};
  for (int i = 0; i < NP; ++i) { used[ip[i]] = true; for (int k = 0; k < 3; ++k) { D s = 0; for (int c = 0; c < 3; ++c) s += g[c][i*3+k]*lam[c]; ENSURES_EQ_L("mass-weighted constraint projection", x[ip[i]*3+k], x0[ip[i]*3+k] - ratio*s/m[i]); } }
  for (int i = 0; i < NX; ++i) if (!used[i]) for (int k = 0; k < 3; ++k) ENSURES_EQ_L("points outside the constraint do not move", x[i*3+k], x0[i*3+k]);
  // the linearised constraint is reduced by the factor 1 - ratio
  for (int c = 0; c < 3; ++c) { D s = C[c]; for (int i = 0; i < NP; ++i) for (int k = 0; k < 3; ++k) s += g[c][i*3+k]*(x[ip[i]*3+k] - x0[ip[i]*3+k]); ENSURES_EQ_L("linearised constraint satisfied", s, (1 - ratio)*C[c]); }
}
VC(pbd_update_3) { update_const3<3>(); }
VC(pbd_update_4) { update_const3<4>(); }
VC(pbd_seam) {
  // point 1 is fixed to 0 by seam (2,0); seam (3,1) is a second one; point 4 is free
  D x[15]; HAVOC(x); D x0[15]; for (int i = 0; i < 15; ++i) x0[i] = x[i];
  const unsigned ln[4] = {2, 0, 3, 1}; D d[2];
  for (int s = 0; s < 2; ++s) { D e[3]; spec::sub3(e, x0+3*ln[2*s+1], x0+3*ln[2*s]); d[s] = std::sqrt(spec::dot3(e, e)); REQUIRES(d[s] > 1e-9); }
  d2::PBD_Seam(x, 5, ln, 2);
  for (int s = 0; s < 2; ++s) for (int k = 0; k < 3; ++k) { const unsigned a = ln[2*s], b = ln[2*s+1];
    const D c = (x0[3*a+k] + x0[3*b+k])/2;
    ENSURES_EQ_L("the seam keeps its midpoint", x[3*a+k] + x[3*b+k], 2*c);
    // far: each end moves by 0.005 towards the other; near (distance at most 0.01): both go to the midpoint
    if (d[s] > 0.01) ENSURES_EQ_L("far seam: each end moves 0.005 towards the other", (x[3*a+k] - x0[3*a+k])*d[s], 0.005*(x0[3*b+k] - x0[3*a+k]));
    else ENSURES_EQ_L("near seam closes at the midpoint", x[3*a+k], c); }
  for (int k = 12; k < 15; ++k) ENSURES_EQ_L("a point on no seam does not move", x[k], x0[k]);
}
// projecting the strain of a triangle / the bending of a hinge = the generic
// projection applied to the Green-Lagrange strain / the bending constraint
VC(pbd_tri_strain) {
  D x[15], P[3][2]; HAVOC(x); vc_reals(&P[0][0], 6, "P"); REQUIRES_POS(spec::area2(P[0], P[1], P[2]), 1e-2);
  std::vector<std::array<unsigned,3>> tri = {{4, 1, 2}};
  std::vector<std::array<D,2>> X(5); X[4] = {P[0][0], P[0][1]}; X[1] = {P[1][0], P[1][1]}; X[2] = {P[2][0], P[2][1]};
  D p[3][3], x0[15]; for (int i = 0; i < 15; ++i) x0[i] = x[i]; for (int n = 0; n < 3; ++n) for (int k = 0; k < 3; ++k) p[n][k] = x[tri[0][n]*3+k];
  D C[3], g[3][9]; d2::CdC_StVK(C, g, P, p);
  D A[9]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { A[a*3+b] = 0; for (int i = 0; i < 9; ++i) A[a*3+b] += g[a][i]*g[b][i]; } REQUIRES_POS(det3A(A), 1e-4);
  d2::PBD_TriStrain(x, 5, tri, X);
  const D m[3] = {1, 1, 1}; const unsigned ip[3] = {4, 1, 2}; D y[15]; for (int i = 0; i < 15; ++i) y[i] = x0[i];
  d2::PBD_Update_Const3(y, 3, 3, m, C, &g[0][0], ip, 1.0);
  for (int i = 0; i < 15; ++i) ENSURES_EQ_L("strain projection with unit masses", x[i], y[i]);
  for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("strain projection keeps the centroid", x[12+k] + x[3+k] + x[6+k], x0[12+k] + x0[3+k] + x0[6+k]); ENSURES_EQ_L("other points stay", x[k], x0[k]); ENSURES_EQ_L("other points stay", x[9+k], x0[9+k]); }
}
VC(pbd_bend) {
  // two triangles (0,1,2), (3,2,1) sharing edge 1-2, stored so that every rotation of the corners occurs
  const unsigned rot = vc_choose(3), rot2 = vc_choose(3); const bool sw = vc_choose(2);
  const unsigned T[2][3] = {{0, 1, 2}, {3, 2, 1}};
  std::vector<d2::CDynTri> tri(2);
  for (unsigned t = 0; t < 2; ++t) { const unsigned r = t ? rot2 : rot; d2::CDynTri &e = tri[sw ? 1 - t : t];
    for (unsigned i = 0; i < 3; ++i) { e.v[(i + r) % 3] = T[t][i]; e.s2[(i + r) % 3] = i == 0 ? (sw ? t : 1 - t) : UINT_MAX; } }
  D x[15], P[4][2]; HAVOC(x); vc_reals(&P[0][0], 8, "P"); const D ratio = vc_real("ratio");
  REQUIRES_POS(spec::area2(P[0], P[1], P[2]), 1e-1); REQUIRES_POS(spec::area2(P[3], P[2], P[1]), 1e-1);
  std::vector<d2::CVec2d> X; for (int i = 0; i < 4; ++i) X.emplace_back(P[i][0], P[i][1]);
  // the constraint written with hinge opposite vertices first
  const unsigned ip[4] = {0, 3, 1, 2}, ip2[4] = {3, 0, 2, 1}; const bool first0 = sw; // the later triangle of the pair is the one visited
  const unsigned *q = first0 ? ip : ip2;
  D P3[4][3], p[4][3]; for (int n = 0; n < 4; ++n) { P3[n][0] = P[q[n]][0]; P3[n][1] = P[q[n]][1]; P3[n][2] = 0; for (int k = 0; k < 3; ++k) p[n][k] = x[q[n]*3+k]; }
  D C[3], g[3][4][3]; d2::CdC_QuadBend(C, g, P3, p);
  const D m[4] = {1, 1, 1, 1}; D y[15], x0[15]; for (int i = 0; i < 15; ++i) x0[i] = y[i] = x[i];
  D A[9]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { A[a*3+b] = 0; for (int i = 0; i < 12; ++i) A[a*3+b] += (&g[a][0][0])[i]*(&g[b][0][0])[i]; } REQUIRES_POS(det3A(A), 1e-4);
  d2::PBD_Update_Const3(y, 4, 3, m, C, &g[0][0][0], q, ratio);
  d2::PBD_Bend(x, 5, tri, X, ratio);
  for (int i = 0; i < 15; ++i) ENSURES_EQ_L("hinge visited exactly once, bending projection with unit masses", x[i], y[i]);
  for (int k = 0; k < 3; ++k) { D s = 0; for (int n = 0; n < 4; ++n) s += x[n*3+k] - x0[n*3+k]; ENSURES_EQ_L("bending projection keeps the centroid", s, 0); ENSURES_EQ_L("other points stay", x[12+k], x0[12+k]); }
}
// polar factor of a 2x2 matrix, away from equal (the code takes them as equal) and zero singular values
static void regular2(const D *M) {
  D s = 0; for (int i = 0; i < 4; ++i) s += fabs(M[i]); REQUIRES(s > 1e-9); const D f = 1/s;
  const D A[4] = {f*M[0], f*M[1], f*M[2], f*M[3]}, g0 = A[0]*A[0] + A[2]*A[2], g1 = A[0]*A[1] + A[2]*A[3], g3 = A[1]*A[1] + A[3]*A[3];
  const D b = g0 + g3, c = g0*g3 - g1*g1, d = b*b - 4*c; REQUIRES(d > 1e-12); const D h = std::sqrt(d); REQUIRES(0.5*(b - h) > 1e-8); REQUIRES(0.5*(b + h) > 1e-8); }
VC(rotation_of_mat2) {
  D M[4], R[4]; HAVOC(M); regular2(M); const D det = spec::det2(M);
  d2::RotationalComponentOfMatrix2(R, M);
  vc_orthonormal<2>(R, "polar factor is orthogonal");
  D S[4]; spec::mtm<2>(S, R, M); ENSURES_EQ_L("stretch is symmetric", S[1], S[2]);
  ENSURES_EQ_L("stretch squared is the Gramian", S[0]*S[0] + S[1]*S[2], M[0]*M[0] + M[2]*M[2]); ENSURES_EQ_L("stretch squared is the Gramian", S[3]*S[3] + S[1]*S[2], M[1]*M[1] + M[3]*M[3]);
  ENSURES_EQ_L("stretch determinant is |det|", spec::det2(S)*spec::det2(S), det*det);
}
VC(rotation_of_mat2_axis) { // the stretch axes are the coordinate axes: the rotation by a multiple of 90 degrees is recovered
  const D a = vc_real("a"), b = vc_real("b"); REQUIRES_POS(a, 1e-2); REQUIRES_POS(b, 1e-2); REQUIRES(a < 100*b); REQUIRES(b < 100*a); REQUIRES((a - b)*(a - b) > 1e-4*(a + b)*(a + b)); REQUIRES(a + b > 1e-6);
  const unsigned k = vc_choose(4); const D c[4] = {1, 0, -1, 0}, s[4] = {0, 1, 0, -1}, M[4] = {c[k]*a, -s[k]*b, s[k]*a, c[k]*b}; D R[4];
  d2::RotationalComponentOfMatrix2(R, M);
  ENSURES_EQ_L("rotation recovered", R[0], c[k]); ENSURES_EQ_L("rotation recovered", R[1], -s[k]); ENSURES_EQ_L("rotation recovered", R[2], s[k]); ENSURES_EQ_L("rotation recovered", R[3], c[k]);
}
VC(pbd_rigid2d_goal) { // arbitrary deformed cluster: goal = pc + R (q - qc) with R the polar factor
  D X[10], x[10], x0[10]; HAVOC(X); HAVOC(x); const D st = vc_real("stiffness"); for (int i = 0; i < 10; ++i) x0[i] = x[i];
  const unsigned ind[2] = {0, 3}, cl[3] = {4, 0, 2};
  D qc[2] = {0, 0}, pc[2] = {0, 0}, A[4] = {0, 0, 0, 0}, R[4]; for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) { qc[k] += X[2*cl[i]+k]/3; pc[k] += x[2*cl[i]+k]/3; }
  for (int i = 0; i < 3; ++i) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) A[2*a+b] += (x[2*cl[i]+a]-pc[a])*(X[2*cl[i]+b]-qc[b]);
  d2::RotationalComponentOfMatrix2(R, A); // contract: rotation_of_mat2
  d2::PBD_ConstProj_Rigid2D(x, st, ind, 2, cl, 3, X, 10);
  for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) { const D g = pc[k] + R[2*k]*(X[2*cl[i]]-qc[0]) + R[2*k+1]*(X[2*cl[i]+1]-qc[1]);
    ENSURES_EQ_L("shape matching: blend towards the goal by the stiffness", x[2*cl[i]+k], st*g + (1 - st)*x0[2*cl[i]+k]); }
  for (int k = 0; k < 2; ++k) { ENSURES_EQ_L("shape matching keeps the centroid", x[8+k] + x[k] + x[4+k], 3*pc[k]); ENSURES_EQ_L("other points stay", x[2+k], x0[2+k]); ENSURES_EQ_L("other points stay", x[6+k], x0[6+k]); }
}
// contract of GetRotPolarDecomp (discharged in F03_svd: polar_rotation): the rotation factor of its argument
static D vc_A[9], vc_R[9]; static int vc_polar;
extern "C" void stub_polar(D *R, const D *A, int) { ++vc_polar; vc_same<9>(A, vc_A, "matrix of the deformation"); for (int i = 0; i < 9; ++i) R[i] = vc_R[i]; }
VC(pbd_cluster3d) {
  D X[18], x[18], x0[18]; HAVOC(X); HAVOC(x); HAVOC(vc_R); const D st = vc_real("stiffness"); for (int i = 0; i < 18; ++i) x0[i] = x[i]; vc_polar = 0;
  const int n = 1 + (int)vc_choose(4), ind[2] = {0, n}, cl[5] = {5, 0, 3, 1, 2}; D qc[3] = {0, 0, 0}, pc[3] = {0, 0, 0}; ZEROS(vc_A); bool in[6] = {false};
  for (int i = 0; i < n; ++i) { in[cl[i]] = true; for (int k = 0; k < 3; ++k) { qc[k] += X[3*cl[i]+k]/n; pc[k] += x[3*cl[i]+k]/n; } }
  for (int i = 0; i < n; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) vc_A[3*a+b] += (x[3*cl[i]+a]-pc[a])*(X[3*cl[i]+b]-qc[b]);
  d2::PBD_ConstProj_Rigid3D(x, st, ind, 2, cl, n, X, 6); ENSURES_L("one rotation per cluster", vc_polar == 1);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) { D g = pc[k]; for (int l = 0; l < 3; ++l) g += vc_R[3*k+l]*(X[3*cl[i]+l]-qc[l]); ENSURES_EQ_L("blend towards the goal by the stiffness", x[3*cl[i]+k], st*g + (1-st)*x0[3*cl[i]+k]); }
  for (int i = 0; i < 18; ++i) if (!in[i/3]) ENSURES_EQ_L("other points stay", x[i], x0[i]);
}
// bounded: the rotation comes from an iterative singular value decomposition
VC(pbd_rigid3d) {
  D X[18], raw[4], q[4], R[9], shift[3], x[18], x0[18], pc[3] = {0, 0, 0}; HAVOC(X); HAVOC(raw); HAVOC(shift); const D st = vc_real("stiffness");
  REQUIRES(spec::dot<4>(raw, raw) > 1e-2); spec::unit4(q, raw); spec::qmat(R, q);
  const int ind[2] = {0, 5}, cl[5] = {5, 0, 3, 1, 2}; for (int i = 0; i < 18; ++i) x[i] = vc_real("x");
  D e[3][3]; for (int i = 0; i < 3; ++i) spec::sub3(e[i], X+3*cl[i+1], X+3*cl[0]); const D v = spec::det3(&e[0][0]); REQUIRES(v*v > 1e-2);
  for (int i = 0; i < 5; ++i) { spec::mv<3>(x+3*cl[i], R, X+3*cl[i]); for (int k = 0; k < 3; ++k) { x[3*cl[i]+k] += shift[k]; pc[k] += x[3*cl[i]+k]; } }
  for (int i = 0; i < 18; ++i) x0[i] = x[i];
  d2::PBD_ConstProj_Rigid3D(x, st, ind, 2, cl, 5, X, 6);
  for (int i = 0; i < 18; ++i) ENSURES_EQ_L("a rigidly moved cluster is left where it is, and so are other points", x[i], x0[i]);
}
