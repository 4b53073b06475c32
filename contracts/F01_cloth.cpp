// cloth and shell energies: value = textbook energy, gradient/Hessian = its derivatives
#include "vc.h"
#include "spec.h"
#define DFM2_HEADER_ONLY
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/fem_stvk.h"
#include "delfem2/fem_quadratic_bending.h"
#include "delfem2/fem_discreteshell.h"
namespace d2 = delfem2;
typedef double D;
// 2x2 metric of a triangle (g00,g11,g01) and Green-Lagrange strain with respect to it
static void metric(D *g, const D *p0, const D *p1, const D *p2) {
  D a[3], b[3]; spec::sub3(a, p1, p0); spec::sub3(b, p2, p0); g[0] = spec::dot3(a, a); g[1] = spec::dot3(b, b); g[2] = spec::dot3(a, b); }
struct St { D area, trE, trE2, S[3], Gi[3]; };
static St strain(const D G[3], const D g[3], D lam, D mu) {
  St r; const D det = G[0]*G[1] - G[2]*G[2]; r.area = 0.5*std::sqrt(det);
  const D i0 = G[1]/det, i1 = G[0]/det, i2 = -G[2]/det; // inverse metric
  const D e0 = (g[0]-G[0])/2, e1 = (g[1]-G[1])/2, e2 = (g[2]-G[2])/2;
  const D m00 = i0*e0+i2*e2, m01 = i0*e2+i2*e1, m10 = i2*e0+i1*e2, m11 = i2*e2+i1*e1; // mixed strain
  r.trE = m00+m11; r.trE2 = m00*m00+2*m01*m10+m11*m11;
  // contravariant stress  S = lambda tr(E) G^-1 + 2 mu G^-1 E G^-1
  r.S[0] = lam*r.trE*i0 + 2*mu*(m00*i0+m01*i2); r.S[1] = lam*r.trE*i1 + 2*mu*(m10*i2+m11*i1); r.S[2] = lam*r.trE*i2 + 2*mu*(m00*i2+m01*i1);
  r.Gi[0] = i0; r.Gi[1] = i1; r.Gi[2] = i2; return r; }
static D Wspec(const St &s, D lam, D mu) { return s.area*(0.5*lam*s.trE*s.trE + mu*s.trE2); }
static void nondegenerate(const D G[3]) { REQUIRES_NONZERO(G[0]); REQUIRES_NONZERO(G[1]); REQUIRES_POS(G[0]*G[1] - G[2]*G[2], 1e-3); }

VC(stvk_constraint) {
  D P[3][2], p[3][3], C[3], dC[3][9]; vc_reals(&P[0][0], 6, "P"); vc_reals(&p[0][0], 9, "p");
  REQUIRES_POS(spec::area2(P[0], P[1], P[2]), 1e-2);
  d2::CdC_StVK(C, dC, P, p);
  // E = (F^T F - I)/2 , F maps rest edges to deformed edges
  const D A = spec::area2(P[0], P[1], P[2]); D F[3][2];
  const D X0 = P[1][0]-P[0][0], Y0 = P[1][1]-P[0][1], X1 = P[2][0]-P[0][0], Y1 = P[2][1]-P[0][1];
  for (int d = 0; d < 3; ++d) { const D a = p[1][d]-p[0][d], b = p[2][d]-p[0][d]; F[d][0] = (a*Y1 - b*Y0)/A; F[d][1] = (b*X0 - a*X1)/A; }
  D xx = 0, yy = 0, xy = 0; for (int d = 0; d < 3; ++d) { xx += F[d][0]*F[d][0]; yy += F[d][1]*F[d][1]; xy += F[d][0]*F[d][1]; }
  ENSURES_EQ_L("C0 = E_xx", C[0], (xx-1)/2); ENSURES_EQ_L("C1 = E_yy", C[1], (yy-1)/2); ENSURES_EQ_L("C2 = 2 E_xy", C[2], xy);
  for (int k = 0; k < 3; ++k) for (int i = 0; i < 9; ++i) ENSURES_EQ_L("dC = derivative of C", dC[k][i], VC_DIFF(C[k], p[i/3][i%3]));
}
VC(stvk_constraint_flipped) {
  D P[3][2], p[3][3], C[3], dC[3][9]; vc_reals(&P[0][0], 6, "P"); vc_reals(&p[0][0], 9, "p");
  REQUIRES_POS(-(spec::area2(P[0], P[1], P[2])), 1e-2);
  d2::CdC_StVK(C, dC, P, p);
  D P3[3][3]; for (int i = 0; i < 3; ++i) { P3[i][0] = P[i][0]; P3[i][1] = P[i][1]; P3[i][2] = 0; }
  D G[3], g[3]; metric(G, P3[0], P3[1], P3[2]); metric(g, p[0], p[1], p[2]); const St s = strain(G, g, 1, 1);
  ENSURES_EQ_L("trace of the strain", C[0]+C[1], s.trE); ENSURES_EQ_L("square of the strain", C[0]*C[0]+C[1]*C[1]+C[2]*C[2]/2, s.trE2);
  for (int k = 0; k < 3; ++k) for (int i = 0; i < 9; ++i) ENSURES_EQ_L("dC = derivative of C", dC[k][i], VC_DIFF(C[k], p[i/3][i%3]));
}
VC(stvk_energy) {
  D P[3][2], p[3][3], C, dC[9], lam = vc_real("lambda"), mu = vc_real("mu"); vc_reals(&P[0][0], 6, "P"); vc_reals(&p[0][0], 9, "p");
  D P3[3][3]; for (int i = 0; i < 3; ++i) { P3[i][0] = P[i][0]; P3[i][1] = P[i][1]; P3[i][2] = 0; }
  D G[3], g[3]; metric(G, P3[0], P3[1], P3[2]); nondegenerate(G); metric(g, p[0], p[1], p[2]);
  d2::CdC_EnergyStVK(C, dC, P, p, lam, mu);
  St s = strain(G, g, lam, mu); s.area = 0.5*std::fabs(spec::area2(P[0], P[1], P[2])); ENSURES_EQ_L("StVK energy", C, Wspec(s, lam, mu));
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("gradient of the StVK energy", dC[i], VC_DIFF(C, p[i/3][i%3]));
}
// stress eigenvalues
static void eig(D *lo, D *hi, const D *s) { const D b = (s[0]+s[1])/2, e = std::sqrt((s[0]-s[1])*(s[0]-s[1])*0.25 + s[2]*s[2]); *lo = b-e; *hi = b+e; }
static void cst_setup(D C[3][3], D c[3][3], D &lam, D &mu, D *G, D *g) {
  vc_reals(&C[0][0], 9, "C"); vc_reals(&c[0][0], 9, "c"); lam = vc_real("lambda"); mu = vc_real("mu");
  metric(G, C[0], C[1], C[2]); nondegenerate(G); metric(g, c[0], c[1], c[2]); }
VC(cst_energy) {
  D C[3][3], c[3][3], lam, mu, G[3], g[3], W, dW[3][3], ddW[3][3][3][3]; cst_setup(C, c, lam, mu, G, g);
  const St s = strain(G, g, lam, mu); D lo, hi; eig(&lo, &hi, s.S); REQUIRES(lo > 1e-10); // tensile stress: exact Hessian
  d2::WdWddW_CST(W, dW, ddW, C, c, lam, mu);
  ENSURES_EQ_L("membrane energy", W, Wspec(s, lam, mu));
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("gradient of the energy", dW[i/3][i%3], VC_DIFF(W, c[i/3][i%3]));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
    ENSURES_EQ_L("Hessian of the energy (tensile stress)", ddW[i][j][k][l], VC_DIFF(dW[i][k], c[j][l]));
}
// geometric part of the Hessian of the energy for stress S
static D geo(const D *S, int i, int j) { static const D N[3][2] = {{-1,-1},{1,0},{0,1}};
  return S[0]*N[i][0]*N[j][0] + S[2]*(N[i][0]*N[j][1]+N[i][1]*N[j][0]) + S[1]*N[i][1]*N[j][1]; }
VC(cst_energy_compressive) {
  // fully compressive stress: the geometric stiffness is dropped, the rest is exact
  D C[3][3], c[3][3], lam, mu, G[3], g[3], W, dW[3][3], ddW[3][3][3][3]; cst_setup(C, c, lam, mu, G, g);
  const St s = strain(G, g, lam, mu); D lo, hi; eig(&lo, &hi, s.S); REQUIRES(hi < -1e-10); REQUIRES(lo < -1e-10);
  d2::WdWddW_CST(W, dW, ddW, C, c, lam, mu);
  ENSURES_EQ_L("membrane energy", W, Wspec(s, lam, mu));
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("gradient of the energy", dW[i/3][i%3], VC_DIFF(W, c[i/3][i%3]));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
    ENSURES_EQ_L("Hessian without the compressive geometric term", ddW[i][j][k][l] + (k==l ? s.area*geo(s.S, i, j) : 0), VC_DIFF(dW[i][k], c[j][l]));
}
VC(cst_energy_mixed) {
  // one tensile, one compressive principal stress: only the tensile part enters the geometric stiffness
  D C[3][3], c[3][3], lam, mu, G[3], g[3], W, dW[3][3], ddW[3][3][3][3]; cst_setup(C, c, lam, mu, G, g);
  const St s = strain(G, g, lam, mu); D lo, hi; eig(&lo, &hi, s.S); REQUIRES_POS(-(lo), 1e-3); REQUIRES_POS(hi, 1e-3);
  const D q0 = (s.S[0]-hi)*(s.S[0]-hi) + s.S[2]*s.S[2], q1 = (s.S[1]-hi)*(s.S[1]-hi) + s.S[2]*s.S[2]; REQUIRES(q0 > 1e-18 && q1 > 1e-18);
  d2::WdWddW_CST(W, dW, ddW, C, c, lam, mu);
  D Sm[3]; for (int k = 0; k < 3; ++k) Sm[k] = lo*(hi*(k<2) - s.S[k])/(hi-lo); // compressive part of S
  ENSURES_EQ_L("membrane energy", W, Wspec(s, lam, mu));
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("gradient of the energy", dW[i/3][i%3], VC_DIFF(W, c[i/3][i%3]));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
    ENSURES_EQ_L("Hessian without the compressive geometric term", ddW[i][j][k][l] + (k==l ? s.area*geo(Sm, i, j) : 0), VC_DIFF(dW[i][k], c[j][l]));
}
VC(cst_sensitivity) {
  D C[3][3], c[3][3], lam, mu, G[3], g[3], K[3][3][3][3], R[3][3], dR[3][3][3][3], W, dW[3][3], ddW[3][3][3][3]; cst_setup(C, c, lam, mu, G, g);
  const St s = strain(G, g, lam, mu); D lo, hi; eig(&lo, &hi, s.S); REQUIRES(lo > 1e-10);
  d2::WdWddW_CST_Sensitivity(K, R, dR, lam, mu, C, c);
  d2::WdWddW_CST(W, dW, ddW, C, c, lam, mu);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("residual = gradient of the energy", R[i/3][i%3], dW[i/3][i%3]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) {
    ENSURES_EQ_L("same Hessian", K[i][j][k][l], ddW[i][j][k][l]);
    ENSURES_EQ_L("rest-shape sensitivity of the residual", dR[i][j][k][l], VC_DIFF(R[i][k], C[j][l]));
  }
}
VC(psd_stress) {
  D s[3], t[3], lo, hi; HAVOC(s); eig(&lo, &hi, s); const int br = vc_choose(3);
  if (br == 0) { REQUIRES(lo > 1e-10); } else if (br == 1) { REQUIRES(lo < -1e-10); REQUIRES(hi < -1e-10); } else { REQUIRES_POS(-(lo), 1e-3); REQUIRES_POS(hi, 1e-3);
    const D q0 = (s[0]-hi)*(s[0]-hi) + s[2]*s[2], q1 = (s[1]-hi)*(s[1]-hi) + s[2]*s[2]; REQUIRES(q0 + q1 > 1e-18); }
  MakePositiveDefinite_Sim22(s, t);
  for (int k = 0; k < 3; ++k) ENSURES_EQ_L("projection onto positive semi-definite stress", t[k], br == 0 ? s[k] : br == 1 ? 0 : hi*(s[k] - lo*(k<2))/(hi-lo));
}
// --- quadratic bending ---
static D cot(const D *a, const D *b, const D *c) { // cotangent of the angle at a
  D u[3], v[3], x[3]; spec::sub3(u, b, a); spec::sub3(v, c, a); spec::cross(x, u, v); return spec::dot3(u, v)/std::sqrt(spec::dot3(x, x)); }
static D area3(const D *a, const D *b, const D *c) { D u[3], v[3], x[3]; spec::sub3(u, b, a); spec::sub3(v, c, a); spec::cross(x, u, v); return std::sqrt(spec::dot3(x, x))/2; }
static void hinge(D K[4], D &A, D &L, const D C[4][3]) {
  const D c02 = cot(C[2], C[0], C[3]), c03 = cot(C[3], C[0], C[2]), c12 = cot(C[2], C[1], C[3]), c13 = cot(C[3], C[1], C[2]);
  K[0] = -c02-c03; K[1] = -c12-c13; K[2] = c03+c13; K[3] = c02+c12;
  A = area3(C[0], C[2], C[3]) + area3(C[1], C[3], C[2]); D e[3]; spec::sub3(e, C[3], C[2]); L = std::sqrt(spec::dot3(e, e)); }
static void hinge_in(D C[4][3], D c[4][3]) {
  vc_reals(&C[0][0], 12, "C"); vc_reals(&c[0][0], 12, "c");
  D e[3]; spec::sub3(e, C[3], C[2]); REQUIRES_POS(spec::dot3(e, e), 1e-2); REQUIRES_POS(area3(C[0], C[2], C[3]), 1e-2); REQUIRES_POS(area3(C[1], C[3], C[2]), 1e-2); }
VC(bend_constraint) {
  D P[4][3], p[4][3], C[3], dC[3][4][3], K[4], A, L; hinge_in(P, p); hinge(K, A, L, P);
  d2::CdC_QuadBend(C, dC, P, p);
  for (int d = 0; d < 3; ++d) { D s = 0; for (int i = 0; i < 4; ++i) s += K[i]*p[i][d]; ENSURES_EQ_L("isometric bending constraint", C[d]*std::sqrt(A), std::sqrt(3.)*s); }
  for (int k = 0; k < 3; ++k) for (int i = 0; i < 12; ++i) ENSURES_EQ_L("dC = derivative of C", dC[k][i/3][i%3], VC_DIFF(C[k], p[i/3][i%3]));
}
VC(bend_energy) {
  D P[4][3], p[4][3], W, dW[4][3], ddW[4][4][3][3], K[4], A, L, st = vc_real("stiff"); hinge_in(P, p); hinge(K, A, L, P);
  d2::WdWddW_Bend(W, dW, ddW, P, p, st);
  D w = 0; for (int d = 0; d < 3; ++d) { D s = 0; for (int i = 0; i < 4; ++i) s += K[i]*p[i][d]; w += s*s; }
  ENSURES_EQ_L("isometric bending energy", W, 0.5*st/A*w);
  for (int i = 0; i < 12; ++i) ENSURES_EQ_L("gradient of the bending energy", dW[i/3][i%3], VC_DIFF(W, p[i/3][i%3]));
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
    ENSURES_EQ_L("Hessian of the bending energy", ddW[i][j][k][l], VC_DIFF(dW[i][k], p[j][l]));
}
VC(bend_flat_rest) {
  // a planar hinge is stress free in its rest shape and under every affine image of it
  D Q[4][2], P[4][3], p[4][3], W, dW[4][3], ddW[4][4][3][3], M[9]; vc_reals(&Q[0][0], 8, "Q"); HAVOC(M);
  for (int i = 0; i < 4; ++i) { P[i][0] = Q[i][0]; P[i][1] = Q[i][1]; P[i][2] = 0; for (int d = 0; d < 3; ++d) p[i][d] = M[d*3]*Q[i][0] + M[d*3+1]*Q[i][1] + M[d*3+2]; }
  REQUIRES_POS(spec::area2(Q[0], Q[2], Q[3]), 1e-2); REQUIRES_POS(spec::area2(Q[1], Q[3], Q[2]), 1e-2);
  { D e[2] = {Q[3][0]-Q[2][0], Q[3][1]-Q[2][1]}; REQUIRES_POS(e[0]*e[0]+e[1]*e[1], 1e-2); }
  d2::WdWddW_Bend(W, dW, ddW, P, p, 1);
  ENSURES_EQ_L("no bending energy", W, 0); for (int i = 0; i < 12; ++i) ENSURES_EQ_L("no bending force", dW[i/3][i%3], 0);
}
VC(bend_sensitivity) {
  D P[4][3], p[4][3], W, dW[4][3], ddW[4][4][3][3], dW1[4][3], ddW1[4][4][3][3], dR[4][4][3][3], st = vc_real("stiff"); hinge_in(P, p);
  d2::WdWddW_Bend(W, dW, ddW, P, p, st);
  d2::WdWddW_QuadraticBending_Sensitivity(ddW1, dW1, dR, P, p, st);
  vc_same<12>(&dW1[0][0], &dW[0][0], "same gradient"); vc_same<144>(&ddW1[0][0][0][0], &ddW[0][0][0][0], "same Hessian");
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)
    ENSURES_EQ_L("rest-shape sensitivity of the residual", dR[i][j][k][l], VC_DIFF(dW1[i][k], P[j][l]));
}
VC(discrete_shell) {
  D p[4][3], C; vc_reals(&p[0][0], 12, "p"); REQUIRES_POS(area3(p[0], p[2], p[3]), 1e-2); REQUIRES_POS(area3(p[1], p[3], p[2]), 1e-2);
  d2::CVec3d q[4], dC[4]; for (int i = 0; i < 4; ++i) q[i] = d2::CVec3d(p[i]);
  d2::CdC_DiscreteShell(C, dC, q[0], q[1], q[2], q[3]);
  D n0[3], n1[3], u[3], v[3]; spec::sub3(u, p[2], p[0]); spec::sub3(v, p[3], p[0]); spec::cross(n0, u, v); spec::sub3(u, p[3], p[1]); spec::sub3(v, p[2], p[1]); spec::cross(n1, u, v);
  ENSURES_EQ_L("cosine of the dihedral angle minus one", (C+1)*std::sqrt(spec::dot3(n0, n0))*std::sqrt(spec::dot3(n1, n1)), spec::dot3(n0, n1));
  for (int i = 0; i < 12; ++i) ENSURES_EQ_L("gradient of the constraint", dC[i/3].p[i%3], VC_DIFF(C, p[i/3][i%3]));
}
