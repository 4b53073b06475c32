// solid, edge, as-rigid-as-possible, conformal and hyperelastic energies
// @bounded: invertible_fem
#include "vc.h"
#include <functional>
#include <vector>
#include "delfem2/vec3.h"
#include "delfem2/mat3.h"
#include "delfem2/fem_mips.h"
#include "delfem2/fem_distance3.h"
#include "delfem2/defarapenergy_geo3.h"
#include "delfem2/svd3.h"
#include "delfem2/geo_tet.h"
#include "delfem2/fem_invertiblefem.h"
#include "delfem2/femutil.h"
#include "delfem2/fem_solidhyper.h"
#include "spec.h"
namespace d2 = delfem2; using D = double; using V3 = d2::CVec3d; using M3 = d2::CMat3d;
void MakeStressConstitute_Hyper2D(double, double, const double[][2], double, double[][2], double[][2][2][2], double &, double &, double &, double[][2]);
static D dist2(const D *a, const D *b, int n) { D s = 0; for (int i = 0; i < n; ++i) s += (a[i]-b[i])*(a[i]-b[i]); return s; }
static D tri3(const D *a, const D *b, const D *c) { D u[3], v[3], n[3]; spec::sub3(u, b, a); spec::sub3(v, c, a); spec::cross(n, u, v); return std::sqrt(spec::dot3(n, n))/2; }
VC(edge_energy) {
  D p[2][3], k = vc_real("stiffness"), L = vc_real("length"); vc_reals(&p[0][0], 6, "p"); REQUIRES_POS(dist2(p[0], p[1], 3), 1e-2);
  V3 q[2] = {V3(p[0]), V3(p[1])}, dW[2]; M3 dd[2][2]; const D W = d2::WdWddW_SquareLengthLineseg3D(dW, dd, k, q, L);
  const D l = std::sqrt(dist2(p[0], p[1], 3)); ENSURES_EQ_L("spring energy", W, k*(l-L)*(l-L)/2);
  for (int i = 0; i < 6; ++i) { ENSURES_EQ_L("gradient of the spring energy", dW[i/3].p[i%3], VC_DIFF(W, p[i/3][i%3]));
    for (int j = 0; j < 6; ++j) ENSURES_EQ_L("Hessian of the spring energy", dd[i/3][j/3].p_[(i%3)*3+j%3], VC_DIFF(dW[i/3].p[i%3], p[j/3][j%3])); }
}
VC(edge_constraint) {
  D p[2][3], L = vc_real("length"), c, dc[2][3]; vc_reals(&p[0][0], 6, "p"); REQUIRES_POS(dist2(p[0], p[1], 3), 1e-2);
  d2::CdC_SquareLengthLineseg3D<double>(c, dc, p, L); ENSURES_EQ_L("edge length constraint", c, std::sqrt(dist2(p[0], p[1], 3)) - L);
  for (int i = 0; i < 6; ++i) ENSURES_EQ_L("derivative of the constraint", dc[i/3][i%3], VC_DIFF(c, p[i/3][i%3]));
}
VC(triangle_edge_constraints) {
  D P[3][2], p[3][3], C[3], dC[3][9]; vc_reals(&P[0][0], 6, "P"); vc_reals(&p[0][0], 9, "p");
  for (int i = 0; i < 3; ++i) { REQUIRES_POS(dist2(P[i], P[(i+1)%3], 2), 1e-2); REQUIRES_POS(dist2(p[i], p[(i+1)%3], 3), 1e-2); }
  d2::CdC_LengthTriEdges23(C, dC, P, p);
  for (int k = 0; k < 3; ++k) { const int a = (k+1)%3, b = (k+2)%3;
    ENSURES_EQ_L("length of the opposite edge minus its rest length", C[k], std::sqrt(dist2(p[a], p[b], 3)) - std::sqrt(dist2(P[a], P[b], 2)));
    for (int i = 0; i < 9; ++i) ENSURES_EQ_L("derivative of the constraint", dC[k][i], VC_DIFF(C[k], p[i/3][i%3])); }
}
VC(tet_edge_constraints) {
  D P[4][3], p[4][3], C[6], dC[6][12]; vc_reals(&P[0][0], 12, "P"); vc_reals(&p[0][0], 12, "p");
  const int E[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}};
  for (auto e : E) { REQUIRES_POS(dist2(P[e[0]], P[e[1]], 3), 1e-2); REQUIRES_POS(dist2(p[e[0]], p[e[1]], 3), 1e-2); }
  d2::CdC_LengthTetEdges(C, dC, P, p);
  for (int k = 0; k < 6; ++k) { const int a = E[k][0], b = E[k][1];
    ENSURES_EQ_L("edge length minus rest length", C[k], std::sqrt(dist2(p[a], p[b], 3)) - std::sqrt(dist2(P[a], P[b], 3)));
    for (int i = 0; i < 12; ++i) ENSURES_EQ_L("derivative of the constraint", dC[k][i], VC_DIFF(C[k], p[i/3][i%3])); }
}
VC(mips) {
  D c[3][3], C[3][3], E, dE[3][3], dd[3][3][3][3]; vc_reals(&c[0][0], 9, "c"); vc_reals(&C[0][0], 9, "C");
  REQUIRES_POS(tri3(c[0], c[1], c[2]), 1e-2); REQUIRES_POS(tri3(C[0], C[1], C[2]), 1e-2);
  d2::WdWddW_MIPS(E, dE, dd, c, C);
  D s = 0, tot = 0; D l[3], L[3]; for (int k = 0; k < 3; ++k) { l[k] = dist2(c[(k+1)%3], c[(k+2)%3], 3); L[k] = dist2(C[(k+1)%3], C[(k+2)%3], 3); tot += l[k]; }
  for (int k = 0; k < 3; ++k) s += (tot - 2*l[k])*L[k];
  const D a = tri3(c[0], c[1], c[2]), A = tri3(C[0], C[1], C[2]);
  ENSURES_EQ_L("MIPS energy", E, s/(8*A)*(A/a + a/A));
  for (int i = 0; i < 9; ++i) { ENSURES_EQ_L("gradient", dE[i/3][i%3], VC_DIFF(E, c[i/3][i%3]));
    for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian", dd[i/3][j/3][i%3][j%3], VC_DIFF(dE[i/3][i%3], c[j/3][j%3])); }
}
// as-rigid-as-possible energy of a star / mesh with arbitrary one-rings
static void arap(const std::vector<unsigned> &ind, const std::vector<unsigned> &sup, int np) {
  std::vector<D> X(np*3), x(np*3), q(np*4), r; vc_reals(X.data(), np*3, "rest"); vc_reals(x.data(), np*3, "pos");
  for (int i = 0; i < np; ++i) { D raw[4]; HAVOC(raw); REQUIRES_POS(spec::dot<4>(raw, raw), 1e-2); spec::unit4(q.data()+4*i, raw); }
  const D W = d2::W_ArapEnergy(X, x, q, ind, sup); d2::dW_ArapEnergy(r, X, x, q, ind, sup);
  D w = 0; for (int i = 0; i < np; ++i) for (unsigned k = ind[i]; k < ind[i+1]; ++k) { const unsigned j = sup[k]; D e[3], re[3]; spec::sub3(e, &X[j*3], &X[i*3]); spec::qrot(re, &q[i*4], e);
    for (int d = 0; d < 3; ++d) { const D t = re[d]-(x[j*3+d]-x[i*3+d]); w += t*t/2; } }
  ENSURES_EQ_L("as-rigid-as-possible energy", W, w); ENSURES((int)r.size() == np*3);
  for (int i = 0; i < np*3; ++i) ENSURES_EQ_L("gradient of the energy", r[i], VC_DIFF(W, x[i]));
}
VC(arap_tet) { arap({0,3,6,9,12}, {1,2,3, 0,2,3, 0,1,3, 0,1,2}, 4); }
VC(arap_strip) { arap({0,2,5,8,10}, {1,2, 0,2,3, 0,1,3, 1,2}, 4); }
VC(arap_hessian) { // Hessian of the energy minimised over the rotation, about the undeformed state
  const int nn = 3 + (int)vc_choose(2), n = nn+1; std::vector<unsigned> ip(n); for (int i = 0; i < n; ++i) ip[i] = (i+1)%n;
  std::vector<D> X(n*3), q(n*4), M; vc_reals(X.data(), n*3, "rest"); const unsigned c = ip[nn];
  for (int i = 0; i < n; ++i) { D raw[4]; HAVOC(raw); REQUIRES_POS(spec::dot<4>(raw, raw), 1e-2); spec::unit4(&q[i*4], raw); }
  std::vector<D> v(nn*3), d(n*3); vc_reals(d.data(), n*3, "displacement"); D A[9] = {0}, b[3] = {0}, om[3];
  for (int j = 0; j < nn; ++j) { D e[3]; spec::sub3(e, &X[ip[j]*3], &X[c*3]); spec::qrot(&v[j*3], &q[c*4], e);
    D dj[3], t[3]; spec::sub3(dj, &d[j*3], &d[nn*3]); spec::cross(t, &v[j*3], dj); for (int i = 0; i < 3; ++i) b[i] += t[i];
    for (int i = 0; i < 9; ++i) A[i] += (i%4 == 0)*spec::dot3(&v[j*3], &v[j*3]) - v[j*3+i/3]*v[j*3+i%3]; }
  const D det = spec::det3(A); REQUIRES_POS(det, 1e-2);
  for (int k = 0; k < 3; ++k) { D B[9]; for (int i = 0; i < 9; ++i) B[i] = i%3 == k ? b[i/3] : A[i]; om[k] = spec::det3(B)/det; } // best rotation
  d2::ddW_ArapEnergy(M, ip, X, q); ENSURES((int)M.size() == n*n*9); D last[3] = {0, 0, 0};
  for (int j = 0; j <= nn; ++j) for (int a = 0; a < 3; ++a) { D s = 0; for (int k = 0; k < n; ++k) for (int e = 0; e < 3; ++e) s += M[(j*n+k)*9+a*3+e]*d[k*3+e];
    if (j == nn) { ENSURES_EQ_L("force on the centre", s, -last[a]); continue; }
    D wv[3]; spec::cross(wv, om, &v[j*3]); const D f = d[j*3+a] - d[nn*3+a] - wv[a]; last[a] += f; ENSURES_EQ_L("linearised force on a neighbour", s, f); }
  for (int j = 0; j < n; ++j) for (int k = 0; k < n; ++k) for (int i = 0; i < 9; ++i) ENSURES_EQ_L("symmetric Hessian", M[(j*n+k)*9+i], M[(k*n+j)*9+(i%3)*3+i/3]);
}
// --- deformation gradient and invertible finite elements ---
VC(deformation_gradient) {
  D P[4][3], A[9], p[4][3], B[9]; vc_reals(&P[0][0], 12, "P"); vc_reals(&p[0][0], 12, "p"); REQUIRES_NONZERO(spec::vol6(P[0], P[1], P[2], P[3]));
  const D *Q[4] = {P[0],P[1],P[2],P[3]}; (void)Q;
  auto F = d2::DeformationGradientOfTet(P[0], P[1], P[2], P[3], p[0], p[1], p[2], p[3]); D dF[4][3]; d2::DiffDeformationGradientOfTet(dF, P[0], P[1], P[2], P[3]);
  for (int i = 0; i < 9; ++i) { A[i] = P[i%3+1][i/3]-P[0][i/3]; B[i] = p[i%3+1][i/3]-p[0][i/3]; } D FA[9]; spec::mm<3>(FA, F.data(), A);
  vc_same<9>(FA, B, "maps every rest edge to the deformed edge");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int n = 0; n < 4; ++n) for (int k = 0; k < 3; ++k) ENSURES_EQ_L("derivative of the deformation gradient", VC_DIFF(F[i*3+j], p[n][k]), i == k ? dF[n][j] : 0);
}
struct Svd { D U[9], V[9], S[3]; M3 u, s, v; D diff[9][3][3]; };
static void svd(Svd &r) { D a[4], b[4]; HAVOC(a); HAVOC(b); HAVOC(r.S); REQUIRES_POS(spec::dot<4>(a, a), 1e-2); REQUIRES_POS(spec::dot<4>(b, b), 1e-2); D t[4];
  spec::unit4(t, a); spec::qmat(r.U, t); spec::unit4(t, b); spec::qmat(r.V, t);
  for (int k = 0; k < 3; ++k) { const D d = r.S[k]-r.S[(k+1)%3]; REQUIRES(d > 1.1e-6 || d < -1.1e-6); const D e = r.S[k]+r.S[(k+1)%3]; REQUIRES_NONZERO(e); }
  for (int i = 0; i < 9; ++i) { r.u.p_[i] = r.U[i]; r.v.p_[i] = r.V[i]; r.s.p_[i] = i%4 ? 0 : r.S[i/4]; }
  d2::Svd3Differential(r.diff, r.u, r.s, r.v); }
static void skewm(D K[9], D a, D b, D c) { K[0]=0; K[1]=-c; K[2]=b; K[3]=c; K[4]=0; K[5]=-a; K[6]=-b; K[7]=a; K[8]=0; }
static void dUV(D dU[9], const D U[9], const D diff[9][3][3], int o, int i, int j) { D K[9]; skewm(K, -diff[o][i][j], -diff[o+1][i][j], -diff[o+2][i][j]); spec::mm<3>(dU, U, K); }
VC(svd_differential) {
  Svd r; svd(r);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D dU[9], dV[9], t[9], x[9], S[9] = {0}, dS[9] = {0}, y[9], z[9]; dUV(dU, r.U, r.diff, 0, i, j); dUV(dV, r.V, r.diff, 6, i, j);
    for (int k = 0; k < 3; ++k) { S[k*4] = r.S[k]; dS[k*4] = r.diff[3+k][i][j]; }
    spec::mm<3>(t, dU, S); spec::mmt<3>(x, t, r.V); spec::mm<3>(t, r.U, dS); spec::mmt<3>(y, t, r.V); spec::mm<3>(t, r.U, S); spec::mmt<3>(z, t, dV);
    for (int k = 0; k < 9; ++k) ENSURES_EQ_L("dU S V' + U dS V' + U S dV' = dF", x[k]+y[k]+z[k], (k == i*3+j)); }
}
static D g1[3], g2[3][3], gl[3], gW;
static D hook(D d[3], D dd[3][3], D l0, D l1, D l2) { gl[0] = l0; gl[1] = l1; gl[2] = l2; for (int i = 0; i < 3; ++i) { d[i] = g1[i]; for (int j = 0; j < 3; ++j) dd[i][j] = g2[i][j]; } return gW; }
VC(piola_kirchhoff) {
  Svd r; svd(r); HAVOC(g1); vc_reals(&g2[0][0], 9, "ddW"); gW = vc_real("W"); M3 P; D dP[3][3][3][3];
  const D W = d2::DiffPiolaKirchhoff1st(P, dP, r.u, r.s, r.v, r.diff, std::function<D(D[3], D[3][3], D, D, D)>(hook)); ENSURES_EQ_L("energy", W, gW);
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("the material sees the principal stretches", gl[i], r.S[i]);
  D T[9] = {0}, t[9], p[9]; for (int k = 0; k < 3; ++k) T[k*4] = g1[k]; spec::mm<3>(t, r.U, T); spec::mmt<3>(p, t, r.V); vc_same<9>(P.p_, p, "first Piola-Kirchhoff stress U diag(dW) V'");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D dU[9], dV[9], x[9], dT[9] = {0}, y[9], z[9]; dUV(dU, r.U, r.diff, 0, i, j); dUV(dV, r.V, r.diff, 6, i, j);
    for (int k = 0; k < 3; ++k) for (int m = 0; m < 3; ++m) dT[k*4] += g2[k][m]*r.diff[3+m][i][j];
    spec::mm<3>(t, dU, T); spec::mmt<3>(x, t, r.V); spec::mm<3>(t, r.U, dT); spec::mmt<3>(y, t, r.V); spec::mm<3>(t, r.U, T); spec::mmt<3>(z, t, dV);
    for (int k = 0; k < 9; ++k) ENSURES_EQ_L("derivative of the stress by the deformation gradient", dP[k/3][k%3][i][j], x[k]+y[k]+z[k]); }
}
// --- hyperelastic solids ---
static void rcg(D C[9], const D u[3][3]) { for (int i = 0; i < 9; ++i) { C[i] = 0; for (int k = 0; k < 3; ++k) C[i] += (u[k][i/3]+(k==i/3))*(u[k][i%3]+(k==i%3)); } }
static void hyper(int model) {
  D P[8][3], U[8][3], W = 0, vol, dW[8][3], c1 = vc_real("c1"), c2 = vc_real("c2"); static D dd[8][8][3][3];
  vc_reals(&P[0][0], 24, "P"); vc_reals(&U[0][0], 24, "U"); for (auto &x : dW) for (D &y : x) y = 0; for (int i = 0; i < 576; ++i) (&dd[0][0][0][0])[i] = 0;
  // shape gradients at the centre of the element: +-1/8 in each parameter
  const int S[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
  D J[9] = {0}, K[9] = {0}, u[3][3]; for (int n = 0; n < 8; ++n) for (int i = 0; i < 9; ++i) { J[i] += P[n][i/3]*S[n][i%3]/8; K[i] += U[n][i/3]*S[n][i%3]/8; }
  const D dj = spec::det3(J); REQUIRES_POS(dj, 1e-1);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D B[9]; /* u = K J^-1 : row i solves x J = K_i */ for (int a = 0; a < 9; ++a) B[a] = J[a]; for (int a = 0; a < 3; ++a) B[j*3+a] = K[i*3+a]; u[i][j] = spec::det3(B)/dj; }
  D C[9]; rcg(C, u); const D p3 = spec::det3(C); REQUIRES_POS(p3, 1e-1);
  if (model == 0) d2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(W, dW, dd, vol, c1, c2, P, U, 0);
  else d2::AddWdWddW_Solid3Compression_Hex(W, dW, dd, vol, c1, P, U, 0);
  const D p1 = C[0]+C[4]+C[8], p2 = C[0]*C[4]+C[4]*C[8]+C[8]*C[0]-C[1]*C[3]-C[5]*C[7]-C[2]*C[6], r = std::cbrt(p3);
  ENSURES_EQ_L("volume of the element", vol, 8*dj);
  ENSURES_EQ_L("energy", W, 8*dj*(model == 0 ? c1*(p1/r-3)+c2*(p2/(r*r)-3) : c1*(p3-1)*(p3-1)/2));
  for (int i = 0; i < 24; ++i) { ENSURES_EQ_L("gradient of the energy", dW[i/3][i%3], VC_DIFF(W, U[i/3][i%3]));
    for (int j = 0; j < 24; ++j) ENSURES_EQ_L("Hessian of the energy", dd[i/3][j/3][i%3][j%3], VC_DIFF(dW[i/3][i%3], U[j/3][j%3])); }
}
VC(mooney_rivlin_hex) { hyper(0); }
VC(compression_hex) { hyper(1); }
static void hyper8(int model) { // eight quadrature points
  D P[8][3], U[8][3], W = 0, vol, dW[8][3], c1 = vc_real("c1"), c2 = vc_real("c2"); static D dd[8][8][3][3];
  for (int n = 0; n < 8; ++n) { D o[3]; for (int d = 0; d < 3; ++d) P[n][d] = (n>>2 ? d==2 : 0) + ((n%4==1||n%4==2) ? d==0 : 0) + ((n%4==2||n%4==3) ? d==1 : 0); (void)o; }
  D u0[3][3]; vc_reals(&U[0][0], 24, "U"); (void)u0; for (auto &x : dW) for (D &y : x) y = 0; for (int i = 0; i < 576; ++i) (&dd[0][0][0][0])[i] = 0;
  if (model == 0) d2::AddWdWddW_Solid3HyperMooneyrivlin2Reduced_Hex(W, dW, dd, vol, c1, c2, P, U, 1); else d2::AddWdWddW_Solid3Compression_Hex(W, dW, dd, vol, c1, P, U, 1);
  ENSURES_EQ_L("volume", vol, 1);
  for (int i = 0; i < 24; ++i) ENSURES_EQ_L("gradient of the energy", dW[i/3][i%3], VC_DIFF(W, U[i/3][i%3]));
  for (int i = 0; i < 24; i += 5) for (int j = 0; j < 24; ++j) ENSURES_EQ_L("Hessian of the energy", dd[i/3][j/3][i%3][j%3], VC_DIFF(dW[i/3][i%3], U[j/3][j%3]));
}
VC(compression_hex8) { hyper8(1); }
VC(hyper2d) {
  D c1 = vc_real("c1"), c2 = vc_real("c2"), pr = vc_real("press"), u[2][2], S[2][2], CC[2][2][2][2], p1, p2, p3, Ci[2][2]; vc_reals(&u[0][0], 4, "dudx");
  D F[2][2] = {{1+u[0][0], u[0][1]}, {u[1][0], 1+u[1][1]}}, C[2][2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) C[i][j] = F[0][i]*F[0][j]+F[1][i]*F[1][j];
  const D det = C[0][0]*C[1][1]-C[0][1]*C[1][0]; REQUIRES_POS(det, 1e-1);
  MakeStressConstitute_Hyper2D(c1, c2, u, pr, S, CC, p1, p2, p3, Ci);
  ENSURES_EQ_L("first invariant", p1, C[0][0]+C[1][1]+1); ENSURES_EQ_L("second invariant", p2, det+C[0][0]+C[1][1]); ENSURES_EQ_L("third invariant", p3, det);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ENSURES_EQ_L("inverse Cauchy-Green tensor", Ci[i][0]*C[0][j]+Ci[i][1]*C[1][j], (i==j));
  const D r = std::cbrt(det), W = c1*p1/r + c2*p2/(r*r) + pr*det;
  auto dE = [&](int k, int l, int a, int b) { return 0.5*((k==b)*F[a][l] + (l==b)*F[a][k]); };
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { D s = 0; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { s += S[i][j]*dE(i, j, a, b);
      D t = 0; for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) t += CC[i][j][k][l]*dE(k, l, a, b); ENSURES_EQ_L("elasticity tensor = derivative of the stress", t, VC_DIFF(S[i][j], u[a][b])); }
    ENSURES_EQ_L("stress = derivative of the energy", s, VC_DIFF(W, u[a][b])); }
}

// bounded: the principal stretches come from an iterative singular value decomposition
static D neo(D d[3], D dd[3][3], D a, D b, D c) { const D l[3] = {a, b, c}, J = a*b*c, J1 = J-1; const D k = 0.7; D W = k*J1*J1/2;
  for (int i = 0; i < 3; ++i) { W += l[i]*l[i]/2 - l[i] + 0.1*l[i]*l[i]*l[i]; const D Ji = l[(i+1)%3]*l[(i+2)%3]; d[i] = l[i]-1+0.3*l[i]*l[i]+k*J1*Ji;
    for (int j = 0; j < 3; ++j) { const D Jj = l[(j+1)%3]*l[(j+2)%3]; dd[i][j] = k*Ji*Jj + (i == j ? 1+0.6*l[i] : k*J1*l[3-i-j]); } }
  return W; }
VC(invertible_fem) {
  D P[4][3], p[4][3], dW[4][3], dd[4][4][3][3]; vc_reals(&P[0][0], 12, "P"); vc_reals(&p[0][0], 12, "p"); const D V = spec::vol6(P[0], P[1], P[2], P[3]); REQUIRES_POS(V, 0.3);
  auto F = d2::DeformationGradientOfTet(P[0], P[1], P[2], P[3], p[0], p[1], p[2], p[3]); D U[9], G[3], VV[9]; d2::Svd3(U, G, VV, F.data(), 30);
  REQUIRES(std::fabs(G[0]-G[1]) > 0.1 && std::fabs(G[1]-G[2]) > 0.1 && std::fabs(G[2]-G[0]) > 0.1 && std::fabs(G[2]+G[1]) > 0.1 && std::fabs(G[2]+G[0]) > 0.1 && G[0] < 5 && std::fabs(G[2]) > 0.1);
  ENSURES_EQ_L("determinant", G[0]*G[1]*G[2], spec::det3(F.data())); D S[9] = {G[0],0,0, 0,G[1],0, 0,0,G[2]}, t[9], m[9]; spec::mm<3>(t, U, S); spec::mmt<3>(m, t, VV); vc_same<9>(m, F.data(), "singular value decomposition");
  vc_orthonormal<3>(U, "U is a rotation"); vc_orthonormal<3>(VV, "V is a rotation"); ENSURES_EQ_L("det U = 1", spec::det3(U), 1); ENSURES_EQ_L("det V = 1", spec::det3(VV), 1);
  const D W = d2::WdWddW_InvertibleFEM(dW, dd, P, p, std::function<D(D[3], D[3][3], D, D, D)>(neo));
  D d[3], e[3][3]; ENSURES_EQ_L("energy of the principal stretches", W, neo(d, e, G[0], G[1], G[2]));
  for (int i = 0; i < 12; ++i) { ENSURES_EQ_L("gradient", dW[i/3][i%3], VC_DIFF(W, p[i/3][i%3]));
    for (int j = 0; j < 12; ++j) ENSURES_EQ_L("Hessian", dd[i/3][j/3][i%3][j%3], VC_DIFF(dW[i/3][i%3], p[j/3][j%3])); }
}
