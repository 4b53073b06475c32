// element matrices: Poisson, diffusion, Helmholtz, beams, linear solids
#include "vc.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <vector>
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_beam2.h"
#include "delfem2/fem_solidlinear.h"
#include "spec.h"
#include "spec_fem.h"
namespace d2 = delfem2; using D = double;
VC(triangle_gradients) {
  D X[3][2], g[3][2], G[3][2], c[3], p[2]; vc_reals(&X[0][0], 6, "X"); HAVOC(p); const D A = spec::tri_grad(G, X); REQUIRES_POS(A, 1e-2);
  d2::TriDlDx(g, c, X[0], X[1], X[2]); ENSURES_EQ_L("area", d2::femutil::TriArea2D(X[0], X[1], X[2]), A);
  for (int i = 0; i < 3; ++i) { for (int d = 0; d < 2; ++d) ENSURES_EQ_L("gradient of the shape function", g[i][d], G[i][d]);
    for (int j = 0; j < 3; ++j) ENSURES_EQ_L("shape function is 1 at its node and 0 at the others", c[i] + g[i][0]*X[j][0] + g[i][1]*X[j][1], spec::kron(i, j)); }
  D l[3]; const D s = c[0] + g[0][0]*p[0] + g[0][1]*p[1]; (void)l; ENSURES_EQ_L("barycentric coordinate", s, spec::area2(p, X[1], X[2])/(2*A)); }
VC(tet_gradients) {
  D X[4][3], g[4][3], G[4][3], c[4]; vc_reals(&X[0][0], 12, "X"); const D V = spec::tet_grad(G, X); REQUIRES_POS(V, 1e-2);
  d2::TetDlDx(g, c, X[0], X[1], X[2], X[3]); ENSURES_EQ_L("volume", d2::femutil::TetVolume3D(X[0], X[1], X[2], X[3]), V);
  for (int i = 0; i < 4; ++i) { for (int d = 0; d < 3; ++d) ENSURES_EQ_L("gradient of the shape function", g[i][d], G[i][d]);
    for (int j = 0; j < 4; ++j) ENSURES_EQ_L("shape function is 1 at its node and 0 at the others", c[i] + spec::dot3(g[i], X[j]), spec::kron(i, j)); } }
VC(femutil_geometry) {
  D a[3], b[3], c[3], n[3], ar, u[3], v[3], w[3]; HAVOC(a); HAVOC(b); HAVOC(c); spec::sub3(u, b, a); spec::sub3(v, c, a); spec::cross(w, u, v);
  const D l = std::sqrt(spec::dot3(w, w)); ENSURES_EQ_L("triangle area", d2::femutil::TriArea3D(a, b, c), l/2);
  ENSURES_EQ_L("distance", d2::femutil::Distance3D(a, b), std::sqrt(spec::dot3(u, u)));
  REQUIRES_POS(l, 1e-2); d2::femutil::UnitNormalAreaTri3D(n, ar, a, b, c); ENSURES_EQ_L("triangle area", ar, l/2); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("unit normal", n[i], w[i]/l); }
VC(femutil_mat3) {
  D A[9], B[9], x[3], y[3], C[9], S[9]; HAVOC(A); HAVOC(B); HAVOC(x);
  d2::femutil::MatVec3(y, A, x); spec::mv<3>(S, A, x); vc_same<3>(y, S, "matrix times vector");
  d2::femutil::MatMat3(C, A, B); spec::mm<3>(S, A, B); vc_same<9>(C, S, "product");
  d2::femutil::MatMatTrans3(C, A, B); spec::mmt<3>(S, A, B); vc_same<9>(C, S, "product with the transpose");
  d2::femutil::Cross3D(y, A, B); spec::cross(S, A, B); vc_same<3>(y, S, "cross product"); ENSURES_EQ(d2::femutil::Dot3D(A, B), spec::dot3(A, B)); }
VC(inverse3) {
  D C[3][3], I[3][3]; HAVOC(C[0]); HAVOC(C[1]); HAVOC(C[2]); const D det = spec::det3(C[0]); REQUIRES_NONZERO(det);
  const D d = d2::DetInv_Mat3(I, C); ENSURES_EQ_L("determinant", d, det);
  D P[9]; spec::mm<3>(P, C[0], I[0]); for (int i = 0; i < 9; ++i) ENSURES_EQ_L("inverse", P[i], spec::kron(i/3, i%3)); }
VC(cauchy_green) {
  D G3[3][3], C3[3][3], G2[2][2], C2[2][2]; vc_reals(G3[0], 9, "G3"); vc_reals(G2[0], 4, "G2"); d2::RightCauchyGreen_DispGrad<3>(C3, G3); d2::RightCauchyGreen_DispGrad<2>(C2, G2);
  D F[9], S[9]; for (int i = 0; i < 9; ++i) F[i] = G3[0][i] + (i%4 == 0); spec::mtm<3>(S, F, F); vc_same<9>(C3[0], S, "F^T F");
  for (int i = 0; i < 4; ++i) F[i] = G2[0][i] + (i%3 == 0); spec::mtm<2>(S, F, F); vc_same<4>(C2[0], S, "F^T F"); }
VC(disp_gradient) {
  D g[8][3], u[8][3], G[3][3]; vc_reals(g[0], 24, "g"); vc_reals(u[0], 24, "u"); d2::DispGrad_GradshapeDisp<3, 8, D>(G, g, u);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D s = 0; for (int k = 0; k < 8; ++k) s += u[k][i]*g[k][j]; ENSURES_EQ(G[i][j], s); } }
// shape functions of the 8-node hexahedron and of the voxel
template<class F> static void hex(const int (*s)[3], F f, const char *l) {
  D r[3], X[8][3], det, g[8][3], n[8]; HAVOC(r); vc_reals(X[0], 24, "X");
  D N[8], dN[8][3], J[9] = {0}; for (int i = 0; i < 8; ++i) { N[i] = (1+s[i][0]*r[0])*(1+s[i][1]*r[1])*(1+s[i][2]*r[2])/8;
    for (int d = 0; d < 3; ++d) dN[i][d] = s[i][d]*(1+s[i][(d+1)%3]*r[(d+1)%3])*(1+s[i][(d+2)%3]*r[(d+2)%3])/8; }
  for (int i = 0; i < 8; ++i) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) J[a*3+b] += X[i][a]*dN[i][b];
  const D dj = spec::det3(J); REQUIRES_NONZERO(dj); f(r[0], r[1], r[2], X, det, g, n); ENSURES_EQ_L(l, det, dj);
  for (int i = 0; i < 8; ++i) { ENSURES_EQ_L(l, n[i], N[i]);
    for (int d = 0; d < 3; ++d) { D t = 0; for (int a = 0; a < 3; ++a) t += g[i][a]*J[a*3+d]; ENSURES_EQ_L(l, t, dN[i][d]); } } }
static const int HEX[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
static const int VOX[8][3] = {{-1,-1,-1},{1,-1,-1},{-1,1,-1},{1,1,-1},{-1,-1,1},{1,-1,1},{-1,1,1},{1,1,1}};
VC(shape_hex8) { hex(HEX, d2::ShapeFunc_Hex8, "trilinear hexahedron shape functions"); }
VC(shape_vox8) { hex(VOX, d2::ShapeFunc_Vox8, "voxel shape functions"); }
VC(mass_laplace_tet) {
  D g[4][3], w = vc_real("w"), M[4][4][3][3], C[4][4], L[4][4][3][3], A[4][4][3][3], A4[4][4][4][4], B4[4][4][4][4]; vc_reals(g[0], 12, "g"); vc_reals(&A[0][0][0][0], 144, "A"); vc_reals(&A4[0][0][0][0], 256, "A4");
  D B[4][4][3][3]; for (int i = 0; i < 144; ++i) (&B[0][0][0][0])[i] = (&A[0][0][0][0])[i]; for (int i = 0; i < 256; ++i) (&B4[0][0][0][0])[i] = (&A4[0][0][0][0])[i];
  d2::SetEmatConsistentMassTet(M, w); d2::SetEMatLaplaceTet(C, w, g); d2::SetEMatLaplaceTet(L, w, g); d2::AddEmatConsistentMassTet<3>(A, w); d2::AddEmatConsistentMassTet<4>(A4, w);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { const D m = w*(1+spec::kron(i, j))/20, l = w*spec::dot3(g[i], g[j]); ENSURES_EQ_L("Laplacian", C[i][j], l);
    for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) { ENSURES_EQ_L("consistent mass", M[i][j][p][q], spec::kron(p, q)*m); ENSURES_EQ_L("Laplacian", L[i][j][p][q], spec::kron(p, q)*l); ENSURES_EQ_L("added consistent mass", A[i][j][p][q] - B[i][j][p][q], spec::kron(p, q)*m); }
    for (int p = 0; p < 4; ++p) for (int q = 0; q < 4; ++q) ENSURES_EQ_L("added consistent mass", A4[i][j][p][q] - B4[i][j][p][q], (p < 3 && p == q)*m); } }
VC(mass_tri) {
  D w = vc_real("w"), A[3][3][2][2], B[3][3][2][2], M[3][3][3][3]; vc_reals(&A[0][0][0][0], 36, "A"); for (int i = 0; i < 36; ++i) (&B[0][0][0][0])[i] = (&A[0][0][0][0])[i]; const bool add = vc_choose(2);
  d2::EmatConsistentMassTri2<2>(A, w, add); d2::EmatConsistentMassTri2<3>(M, w, false);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) { const D m = (p == q && p < 2)*w*(1+spec::kron(i, j))/12;
    ENSURES_EQ_L("consistent mass", M[i][j][p][q], m); if (p < 2 && q < 2) ENSURES_EQ_L("consistent mass", A[i][j][p][q] - (add ? B[i][j][p][q] : 0), m); } }
// scalar elements
template<int N, int DIM> static void poisson(void f(D*, D (*)[N], D, D, const D (*)[DIM], const D*)) {
  D X[N][DIM], G[N][DIM], u[N], r[N], K[N][N], al = vc_real("alpha"), src = vc_real("source"); vc_reals(X[0], N*DIM, "X"); HAVOC(u);
  const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2); f(r, K, al, src, X, u);
  for (int i = 0; i < N; ++i) { D s = src*V/N; for (int j = 0; j < N; ++j) { const D k = al*V*spec::dot<DIM>(G[i], G[j]); s -= k*u[j]; ENSURES_EQ_L("stiffness", K[i][j], k); }
    ENSURES_EQ_L("residual = load - K value", r[i], s); } }
VC(poisson_tri) { poisson<3, 2>([](D *r, D (*K)[3], D a, D s, const D (*X)[2], const D *u) { d2::EMat_Poisson_Tri2D(r, K, a, s, X, u); }); }
VC(poisson_tet) { poisson<4, 3>([](D *r, D (*K)[4], D a, D s, const D (*X)[3], const D *u) { d2::EMat_Poisson_Tet3D(r, K, a, s, X, u); }); }
template<int N, int DIM> static void diffusion(void f(D*, D (*)[N], D, D, D, D, D, const D (*)[DIM], const D*, const D*)) {
  D X[N][DIM], G[N][DIM], u[N], v[N], r[N], K[N][N], al = vc_real("alpha"), src = vc_real("source"), dt = vc_real("dt"), ga = vc_real("gamma"), rho = vc_real("rho"); vc_reals(X[0], N*DIM, "X"); HAVOC(u); HAVOC(v);
  const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2); f(r, K, al, src, dt, ga, rho, X, u, v);
  for (int i = 0; i < N; ++i) { D s = src*V/N; for (int j = 0; j < N; ++j) { const D k = al*V*spec::dot<DIM>(G[i], G[j]), m = rho*V*(1+spec::kron(i, j))/((DIM+1)*(DIM+2));
      s -= k*(u[j]+dt*v[j]) + m*v[j]; ENSURES_EQ_L("system matrix = M + gamma dt K", K[i][j], m + ga*dt*k); }
    ENSURES_EQ_L("residual = load - K (value + dt velo) - M velo", r[i], s); } }
VC(diffusion_tri) { diffusion<3, 2>([](D *r, D (*K)[3], D a, D s, D dt, D g, D rho, const D (*X)[2], const D *u, const D *v) { d2::EMat_Diffusion_Tri2D(r, K, a, s, dt, g, rho, X, u, v); }); }
VC(diffusion_tet) { diffusion<4, 3>([](D *r, D (*K)[4], D a, D s, D dt, D g, D rho, const D (*X)[3], const D *u, const D *v) { d2::EMat_Diffusion_Newmark_Tet3D(r, K, a, s, dt, g, rho, X, u, v); }); }
// bilinear rectangle: nodes (0,0) (lx,0) (lx,ly) (0,ly); exact integrals
static const int QS[4][2] = {{-1,-1},{1,-1},{1,1},{-1,1}};
static void quad_int(D H[4][4][2][2], D lx, D ly) {
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
    H[i][j][0][0] = QS[i][0]*QS[j][0]/lx*ly*(QS[i][1] == QS[j][1] ? 1./3 : 1./6); H[i][j][1][1] = QS[i][1]*QS[j][1]/ly*lx*(QS[i][0] == QS[j][0] ? 1./3 : 1./6);
    H[i][j][0][1] = QS[i][0]*QS[j][1]/4.; H[i][j][1][0] = QS[i][1]*QS[j][0]/4.; } }
VC(poisson_quad) {
  D lx = vc_real("lx"), ly = vc_real("ly"), K[4][4], H[4][4][2][2]; REQUIRES_POS(lx, 1e-2); REQUIRES_POS(ly, 1e-2); d2::EMat_Poission2_QuadOrth(K, lx, ly); quad_int(H, lx, ly);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ENSURES_EQ_L("stiffness of a bilinear rectangle", K[i][j], H[i][j][0][0] + H[i][j][1][1]); }
VC(poisson_quad_gauss) {
  D lx = vc_real("lx"), ly = vc_real("ly"), K[4][4], H[4][4][2][2]; REQUIRES_POS(lx, 1e-2); REQUIRES_POS(ly, 1e-2); d2::EMat_Poisson2_QuadOrth_GaussInt(K, lx, ly, 1); quad_int(H, lx, ly);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ENSURES_EQ_L("stiffness of a bilinear rectangle", K[i][j], H[i][j][0][0] + H[i][j][1][1]); }
VC(solid_quad_gauss) {
  D lx = vc_real("lx"), ly = vc_real("ly"), mu = vc_real("mu"), la = vc_real("lambda"), K[4][4][2][2], H[4][4][2][2]; REQUIRES_POS(lx, 1e-2); REQUIRES_POS(ly, 1e-2); d2::EMat_SolidLinear2_QuadOrth_GaussInt(K, lx, ly, mu, la, 1); quad_int(H, lx, ly);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q)
    ENSURES_EQ_L("stiffness of a bilinear rectangle", K[i][j][p][q], la*H[i][j][p][q] + mu*H[i][j][q][p] + spec::kron(p, q)*mu*(H[i][j][0][0]+H[i][j][1][1])); }
// Helmholtz
typedef std::complex<D> Z;
VC(helmholtz_tri) {
  D X[3][2], G[3][2], u[6], wl = vc_real("wave_length"); vc_reals(X[0], 6, "X"); HAVOC(u); REQUIRES_POS(wl, 1e-2); const D A = spec::grad(G, X); REQUIRES_POS(A, 1e-2);
  Z val[3] = {Z(u[0], u[1]), Z(u[2], u[3]), Z(u[4], u[5])}, r[3], K[3][3]; d2::EMat_Helmholtz_Tri2D(r, K, wl, X, val); const D k = 2*3.1416/wl;
  for (int i = 0; i < 3; ++i) { D s[2] = {0, 0}; for (int j = 0; j < 3; ++j) { const D e = A*spec::dot<2>(G[i], G[j]) - k*k*A*(1+spec::kron(i, j))/12;
      ENSURES_EQ_L("stiffness - k^2 mass", K[i][j].real(), e); ENSURES_EQ_L("real matrix", K[i][j].imag(), 0.0); s[0] -= e*u[j*2]; s[1] -= e*u[j*2+1]; }
    ENSURES_EQ_L("residual = -K value", r[i].real(), s[0]); ENSURES_EQ_L("residual = -K value", r[i].imag(), s[1]); } }
VC(sommerfeld) {
  D X[2][2], u[4], wl = vc_real("wave_length"); vc_reals(X[0], 4, "X"); HAVOC(u); REQUIRES_POS(wl, 1e-2); const D L = std::sqrt((X[0][0]-X[1][0])*(X[0][0]-X[1][0]) + (X[0][1]-X[1][1])*(X[0][1]-X[1][1])); REQUIRES_POS(L, 1e-2);
  Z val[2] = {Z(u[0], u[1]), Z(u[2], u[3])}, r[2], K[2][2]; d2::EMat_SommerfeltRadiationBC_Line2D(r, K, wl, X, val); const D k = 2*3.1416/wl;
  for (int i = 0; i < 2; ++i) { D s[2] = {0, 0}; for (int j = 0; j < 2; ++j) { const D e = k*L*(1+spec::kron(i, j))/6 - (i == j ? 1 : -1)/(2*L*k);
      ENSURES_EQ_L("imaginary matrix", K[i][j].real(), 0.0); ENSURES_EQ_L("ik mass + i/2k stiffness of the boundary edge", K[i][j].imag(), e); s[0] += e*u[j*2+1]; s[1] -= e*u[j*2]; }
    ENSURES_EQ_L("residual = -K value", r[i].real(), s[0]); ENSURES_EQ_L("residual = -K value", r[i].imag(), s[1]); } }
// Euler-Bernoulli beam + bar, in the frame of the beam
VC(beam2) {
  D x[2][2], u[2][3], dW[2][3], K[2][2][3][3], EI = vc_real("EI"), AE = vc_real("AE"); vc_reals(x[0], 4, "x"); vc_reals(u[0], 6, "u");
  const D L = std::sqrt((x[0][0]-x[1][0])*(x[0][0]-x[1][0]) + (x[0][1]-x[1][1])*(x[0][1]-x[1][1])); REQUIRES_POS(L, 1e-2); d2::dWddW_Beam2<D>(dW, K, EI, AE, x, u);
  const D c = (x[1][0]-x[0][0])/L, s = (x[1][1]-x[0][1])/L; D a[2], b[2], t[2]; for (int i = 0; i < 2; ++i) { a[i] = c*u[i][0]+s*u[i][1]; b[i] = -s*u[i][0]+c*u[i][1]; t[i] = u[i][2]; }
  // energy of the cubic deflection w(0)=b0, w'(0)=t0, w(L)=b1, w'(L)=t1:  w'' = p + q x
  const D p = (6*(b[1]-b[0])/L - 4*t[0] - 2*t[1])/L, q = (6*(t[0]+t[1]) - 12*(b[1]-b[0])/L)/(L*L);
  const D W = EI*(p*p*L + p*q*L*L + q*q*L*L*L/3)/2 + AE*(a[1]-a[0])*(a[1]-a[0])/(2*L);
  for (int i = 0; i < 6; ++i) { ENSURES_EQ_L("gradient of the bar and beam energy", dW[i/3][i%3], VC_DIFF(W, u[i/3][i%3]));
    for (int j = 0; j < 6; ++j) ENSURES_EQ_L("Hessian", K[i/3][j/3][i%3][j%3], VC_DIFF(dW[i/3][i%3], u[j/3][j%3])); } }
// linear solids
template<int N, int DIM> static D kk(const D (*G)[DIM], D la, D mu, int i, int j, int p, int q) { (void)N; return la*G[i][p]*G[j][q] + mu*G[j][p]*G[i][q] + spec::kron(p, q)*mu*spec::dot<DIM>(G[i], G[j]); }
VC(solid_static_tri) {
  D X[3][2], G[3][2], u[3][2], r[3][2], K[3][3][2][2], mu = vc_real("mu"), la = vc_real("lambda"), rho = vc_real("rho"), g[2]; HAVOC(g); vc_reals(X[0], 6, "X"); vc_reals(u[0], 6, "u"); const D A = spec::grad(G, X); REQUIRES_POS(A, 1e-2);
  d2::EMat_SolidStaticLinear_Tri2D(r, K, mu, la, rho, g[0], g[1], u, X);
  for (int i = 0; i < 3; ++i) for (int p = 0; p < 2; ++p) { D s = rho*A*g[p]/3; for (int j = 0; j < 3; ++j) for (int q = 0; q < 2; ++q) { const D k = A*kk<3, 2>(G, la, mu, i, j, p, q); s -= k*u[j][q]; ENSURES_EQ_L("stiffness", K[i][j][p][q], k); }
    ENSURES_EQ_L("residual = weight - K disp", r[i][p], s); } }
template<int N, int DIM, class F> static void newmark(F f) {
  D X[N][DIM], G[N][DIM], u[N][DIM], v[N][DIM], a[N][DIM], r[N][DIM], K[N][N][DIM][DIM], mu = vc_real("mu"), la = vc_real("lambda"), rho = vc_real("rho"), g[3], dt = vc_real("dt"), ga = vc_real("gamma"), be = vc_real("beta");
  HAVOC(g); vc_reals(X[0], N*DIM, "X"); vc_reals(u[0], N*DIM, "u"); vc_reals(v[0], N*DIM, "v"); vc_reals(a[0], N*DIM, "a"); const bool ini = vc_choose(2); const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2);
  f(r, K, mu, la, rho, g, dt, ga, be, u, v, a, X, ini);
  for (int i = 0; i < N; ++i) for (int p = 0; p < DIM; ++p) { D s = rho*V*g[p]/N; for (int j = 0; j < N; ++j) for (int q = 0; q < DIM; ++q) { const D k = V*kk<N, DIM>(G, la, mu, i, j, p, q), m = spec::kron(p, q)*rho*V*(1+spec::kron(i, j))/((DIM+1)*(DIM+2));
      s -= k*(u[j][q] + (ini ? dt*v[j][q] + dt*dt*a[j][q]/2 : 0)) + m*a[j][q]; ENSURES_EQ_L("system matrix = M + beta dt^2 K", K[i][j][p][q], m + be*dt*dt*k); }
    ENSURES_EQ_L("residual at the predicted displacement", r[i][p], s); } }
VC(solid_newmark_tri) { newmark<3, 2>([](D (*r)[2], D (*K)[3][2][2], D mu, D la, D rho, const D *g, D dt, D ga, D be, const D (*u)[2], const D (*v)[2], const D (*a)[2], const D (*X)[2], bool ini) { d2::EMat_SolidDynamicLinear_Tri2D(r, K, mu, la, rho, g[0], g[1], dt, ga, be, u, v, a, X, ini); }); }
VC(solid_newmark_tet) { newmark<4, 3>([](D (*r)[3], D (*K)[4][3][3], D mu, D la, D rho, const D *g, D dt, D ga, D be, const D (*u)[3], const D (*v)[3], const D (*a)[3], const D (*X)[3], bool ini) { d2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(r, K, mu, la, rho, g[0], g[1], g[2], dt, ga, be, u, v, a, X, ini); }); }
VC(solid_static_tet) {
  D X[4][3], G[4][3], u[4][3], r[4][3], r0[4][3], K[4][4][3][3], K0[4][4][3][3], mu = vc_real("mu"), la = vc_real("lambda"); vc_reals(X[0], 12, "X"); vc_reals(u[0], 12, "u"); vc_reals(r[0], 12, "r"); vc_reals(&K[0][0][0][0], 144, "K"); const bool add = vc_choose(2);
  for (int i = 0; i < 144; ++i) (&K0[0][0][0][0])[i] = add ? (&K[0][0][0][0])[i] : 0; for (int i = 0; i < 12; ++i) r0[0][i] = add ? r[0][i] : 0;
  const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2); d2::EMat_SolidLinear_Static_Tet(K, r, mu, la, X, u, add);
  for (int i = 0; i < 4; ++i) for (int p = 0; p < 3; ++p) { D s = 0; for (int j = 0; j < 4; ++j) for (int q = 0; q < 3; ++q) { const D k = V*kk<4, 3>(G, la, mu, i, j, p, q); s -= k*u[j][q]; ENSURES_EQ_L("stiffness (added to what was there)", K[i][j][p][q] - K0[i][j][p][q], k); }
    ENSURES_EQ_L("residual = -K disp (added to what was there)", r[i][p] - r0[i][p], s); } }
VC(set_add_helpers) {
  D G[4][3], K[4][4][3][3], mu = vc_real("mu"), la = vc_real("lambda"), w = vc_real("w"), R[4][3], R0[4][3], v[4][3], M[4][4][3][3], sc = vc_real("scale"); vc_reals(G[0], 12, "G"); vc_reals(R[0], 12, "R"); vc_reals(v[0], 12, "v"); vc_reals(&M[0][0][0][0], 144, "M");
  d2::SetEmat_LinearSolid3<4>(K, la, mu, G, w); for (int i = 0; i < 12; ++i) R0[0][i] = R[0][i]; d2::AddEmatEvecScale3<4>(R, M, v, sc);
  for (int i = 0; i < 4; ++i) for (int p = 0; p < 3; ++p) { D s = 0; for (int j = 0; j < 4; ++j) for (int q = 0; q < 3; ++q) { ENSURES_EQ_L("isotropic linear stiffness", K[i][j][p][q], w*kk<4, 3>(G, la, mu, i, j, p, q)); s += M[i][j][p][q]*v[j][q]; }
    ENSURES_EQ_L("adds scale * M v", R[i][p] - R0[i][p], sc*s); } }
VC(solid_hex_gravity) { // any parallelepiped: 3x3x3 Gauss integrates it exactly
  D A[9], o[3], X[8][3], u[8][3], r[8][3], mu = vc_real("mu"), la = vc_real("lambda"), rho = vc_real("rho"), g[3]; static D K[8][8][3][3]; HAVOC(A); HAVOC(o); HAVOC(g); vc_reals(u[0], 24, "u");
  for (int i = 0; i < 8; ++i) for (int d = 0; d < 3; ++d) { X[i][d] = o[d]; for (int e = 0; e < 3; ++e) X[i][d] += A[d*3+e]*HEX[i][e]; }
  const D det = spec::det3(A); REQUIRES_POS(det, 1e-2); d2::elemMatRes_LinearSolidGravity3_Static_Q1(mu, la, rho, g, X, u, K, r);
  // inverse of A by cofactors
  D I[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { const int a = (j+1)%3, b = (j+2)%3, c = (i+1)%3, d = (i+2)%3; I[i*3+j] = (A[a*3+c]*A[b*3+d] - A[a*3+d]*A[b*3+c])/det; }
  for (int i = 0; i < 8; ++i) for (int p = 0; p < 3; ++p) { D s = rho*g[p]*det; for (int j = 0; j < 8; ++j) for (int q = 0; q < 3; ++q) s -= K[i][j][p][q]*u[j][q]; ENSURES_EQ_L("residual = weight - K disp", r[i][p], s); }
  for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) { D H[9] = {0}; // int dN_i/dx_p dN_j/dx_q
    D B[9]; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { D f = 1; // int dN_i/dr_a dN_j/dr_b over the reference cube, per direction
        for (int d = 0; d < 3; ++d) { const int si = HEX[i][d], sj = HEX[j][d]; f *= (a == d && b == d) ? si*sj/2. : a == d ? si/2. : b == d ? sj/2. : (si == sj ? 2./3 : 1./3); } B[a*3+b] = f; }
    for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) H[p*3+q] += det*B[a*3+b]*I[a*3+p]*I[b*3+q];
    for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) ENSURES_EQ_L("stiffness of a trilinear parallelepiped", K[i][j][p][q], la*H[p*3+q] + mu*H[q*3+p] + spec::kron(p, q)*mu*(H[0]+H[4]+H[8])); } }
// quadratic tetrahedron: edge nodes (01)(12)(02)(03)(13)(23)
static const int TE[6][2] = {{0,1},{1,2},{0,2},{0,3},{1,3},{2,3}};
VC(tet_p2_stress) {
  D G[4][3], l[4], u[10][3], S[3][3], la = vc_real("lambda"), mu = vc_real("mu"); vc_reals(G[0], 12, "G"); HAVOC(l); vc_reals(u[0], 30, "u");
  d2::stress_LinearSolid_TetP2(S, l[0], l[1], l[2], l[3], 1.0, la, mu, 0, 0, 0, G, u); D F[9] = {0};
  for (int n = 0; n < 10; ++n) for (int j = 0; j < 3; ++j) { const D d = n < 4 ? (4*l[n]-1)*G[n][j] : 4*(l[TE[n-4][0]]*G[TE[n-4][1]][j] + l[TE[n-4][1]]*G[TE[n-4][0]][j]); for (int i = 0; i < 3; ++i) F[i*3+j] += u[n][i]*d; }
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ENSURES_EQ_L("stress = lambda tr(e) I + 2 mu e", S[i][j], mu*(F[i*3+j]+F[j*3+i]) + spec::kron(i, j)*la*(F[0]+F[4]+F[8])); }
VC(tet_p2_matrix) {
  D G[4][3], u[10][3], r[10][3], vol = vc_real("vol"), la = vc_real("lambda"), mu = vc_real("mu"), rho = vc_real("rho"), g[3]; static D K[10][10][3][3]; HAVOC(g); vc_reals(G[0], 12, "G"); vc_reals(u[0], 30, "u");
  for (int d = 0; d < 3; ++d) G[3][d] = -G[0][d]-G[1][d]-G[2][d];
  d2::matRes_LinearSolid_TetP2(K, r, vol, la, mu, g[0], g[1], g[2], rho, G, u);
  // grad N_n = sum_k l_k V[n][k],  sum l_k = 1
  D V[10][4][3]; for (int n = 0; n < 10; ++n) for (int k = 0; k < 4; ++k) for (int d = 0; d < 3; ++d) V[n][k][d] = n < 4 ? (4*(n == k)-1)*G[n][d] : 4*((k == TE[n-4][0])*G[TE[n-4][1]][d] + (k == TE[n-4][1])*G[TE[n-4][0]][d]);
  for (int i = 0; i < 10; ++i) for (int p = 0; p < 3; ++p) { D s = rho*vol*g[p]*(i < 4 ? -1./20 : 1./5); for (int j = 0; j < 10; ++j) for (int q = 0; q < 3; ++q) s -= K[i][j][p][q]*u[j][q]; ENSURES_EQ_L("residual = weight - K disp", r[i][p], s); }
  for (int i = 0; i < 10; ++i) for (int j = 0; j < 10; ++j) { D H[9]; for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) { D h = 0; for (int k = 0; k < 4; ++k) for (int m = 0; m < 4; ++m) h += (1+(k == m))*V[i][k][p]*V[j][m][q]; H[p*3+q] = vol*h/20; }
    for (int p = 0; p < 3; ++p) for (int q = 0; q < 3; ++q) ENSURES_EQ_L("stiffness of the quadratic tetrahedron", K[i][j][p][q], la*H[p*3+q] + mu*H[q*3+p] + spec::kron(p, q)*mu*(H[0]+H[4]+H[8])); } }
