// element matrices: plate bending (DKT and MITC3 triangles)
// @flags: -DDFM2_STATIC_LIBRARY
#include "vc.h"
#include <cmath>
#include <vector>
#include "delfem2/femutil.h"
#include "delfem2/femutil.cpp"
#include "delfem2/fem_dkt.h"
#include "delfem2/fem_dkt.cpp"
#include "delfem2/fem_mitc3.h"
#include "delfem2/fem_mitc3.cpp"
#include "spec.h"
#include "spec_fem.h"
namespace d2 = delfem2; using D = double;
struct Dkt { D K[9][9], r[9]; }; // dof of node i: deflection, rotation about x, rotation about y
static void dkt(Dkt &o, D E, D nu, D t, const D (*X)[2], const D *w, const D (*rot)[2]) {
  D ww[3][3], wr[3][3][2], rw[3][3][2], rr[3][3][2][2], ew[3], er[3][2]; d2::MakeMat_PlateBendingDKT(ww, wr, rw, rr, ew, er, E, nu, t, X, w, rot);
  for (int i = 0; i < 3; ++i) { o.r[i*3] = ew[i]; for (int p = 0; p < 2; ++p) o.r[i*3+1+p] = er[i][p];
    for (int j = 0; j < 3; ++j) { o.K[i*3][j*3] = ww[i][j]; for (int p = 0; p < 2; ++p) { o.K[i*3][j*3+1+p] = wr[i][j][p]; o.K[i*3+1+p][j*3] = rw[i][j][p]; for (int q = 0; q < 2; ++q) o.K[i*3+1+p][j*3+1+q] = rr[i][j][p][q]; } } } }
VC(dkt_stiffness) {
  D X[3][2], w[3], rot[3][2], G[3][2], E = vc_real("young"), nu = vc_real("poisson"), t = vc_real("thickness"); vc_reals(X[0], 6, "X"); HAVOC(w); vc_reals(rot[0], 6, "rot"); REQUIRES_POS(1-nu*nu, 1e-2); const D A = spec::grad(G, X); REQUIRES_POS(A, 1e-2);
  Dkt o; dkt(o, E, nu, t, X, w, rot); D u[9]; for (int i = 0; i < 3; ++i) { u[i*3] = w[i]; u[i*3+1] = rot[i][0]; u[i*3+2] = rot[i][1]; }
  for (int i = 0; i < 9; ++i) { D s = 0; for (int j = 0; j < 9; ++j) { s -= o.K[i][j]*u[j]; ENSURES_EQ_L("symmetric stiffness", o.K[i][j], o.K[j][i]); } ENSURES_EQ_L("residual = -K (w, rot)", o.r[i], s); } }
// a quadratic deflection w = c0 + c1 x + c2 y + (k0 xx + k1 yy + k2 xy)/2 is
// reproduced: K u is the work-conjugate of the constant bending moment, and
// the energy is area * plate energy density (so the affine part is stress-free)
VC(dkt_patch) {
  D X[3][2], G[3][2], c[3], k[3], E = vc_real("young"), nu = vc_real("poisson"), t = vc_real("thickness"); vc_reals(X[0], 6, "X"); HAVOC(c); HAVOC(k); REQUIRES_POS(1-nu*nu, 1e-2); const D A = spec::grad(G, X); REQUIRES_POS(A, 1e-2);
  D w[3], rot[3][2]; for (int i = 0; i < 3; ++i) { const D x = X[i][0], y = X[i][1]; w[i] = c[0]+c[1]*x+c[2]*y + (k[0]*x*x+k[1]*y*y+k[2]*x*y)/2; rot[i][0] = c[2]+k[1]*y+k[2]*x/2; rot[i][1] = -(c[1]+k[0]*x+k[2]*y/2); }
  Dkt o; dkt(o, E, nu, t, X, w, rot); D u[9], e = 0; for (int i = 0; i < 3; ++i) { u[i*3] = w[i]; u[i*3+1] = rot[i][0]; u[i*3+2] = rot[i][1]; } for (int i = 0; i < 9; ++i) e -= o.r[i]*u[i];
  const D Dp = E*t*t*t/(12*(1-nu*nu)); ENSURES_EQ_L("energy of a constant curvature", e, A*Dp*(k[0]*k[0]+k[1]*k[1]+2*nu*k[0]*k[1]+(1-nu)/2*k[2]*k[2]));
  // total force and moments vanish (the element is free)
  D f = 0, mx = 0, my = 0; for (int i = 0; i < 3; ++i) { f += o.r[i*3]; mx += X[i][1]*o.r[i*3] + o.r[i*3+1]; my += -X[i][0]*o.r[i*3] + o.r[i*3+2]; }
  ENSURES_EQ_L("forces balance", f, 0); ENSURES_EQ_L("moments balance", mx, 0); ENSURES_EQ_L("moments balance", my, 0); }
VC(mitc3) {
  D X[3][2], G[3][2], u[3][3], dW[3][3], K[3][3][3][3], W = vc_real("W0"), t = vc_real("thickness"), la = vc_real("lambda"), mu = vc_real("mu"); vc_reals(X[0], 6, "X"); vc_reals(u[0], 9, "u"); vc_reals(dW[0], 9, "dW0"); vc_reals(&K[0][0][0][0], 81, "K0");
  const D W0 = W; D dW0[9], K0[81]; for (int i = 0; i < 9; ++i) dW0[i] = dW[0][i]; for (int i = 0; i < 81; ++i) K0[i] = (&K[0][0][0][0])[i];
  const D A = spec::grad(G, X); REQUIRES_POS(A, 1e-2); REQUIRES_POS(t, 1e-2); d2::WdWddW_PlateBendingMITC3(W, dW, K, X, u, t, la, mu);
  // director field beta = (rot_y, -rot_x)
  D b[3][2], k[2][2] = {{0,0},{0,0}}; for (int i = 0; i < 3; ++i) { b[i][0] = u[i][2]; b[i][1] = -u[i][1]; }
  for (int i = 0; i < 3; ++i) for (int p = 0; p < 2; ++p) for (int q = 0; q < 2; ++q) k[p][q] += (b[i][p]*G[i][q]+b[i][q]*G[i][p])/2;
  const D tr = k[0][0]+k[1][1], Wb = A*t*t*t/12*(la*tr*tr/2 + mu*(k[0][0]*k[0][0]+k[1][1]*k[1][1]+2*k[0][1]*k[0][1]));
  // assumed transverse shear: tied at the mid-edges, edge-element interpolation
  D Ws = 0, s[3]; for (int e = 0; e < 3; ++e) { const int i = e, j = (e+1)%3; s[e] = u[j][0]-u[i][0]; for (int d = 0; d < 2; ++d) s[e] += (b[i][d]+b[j][d])/2*(X[j][d]-X[i][d]); }
  for (int e = 0; e < 3; ++e) for (int f = 0; f < 3; ++f) { const D sf = 4; /* the factor the code multiplies the shear stiffness with */ const int n[2][2] = {{e, (e+1)%3}, {f, (f+1)%3}};
    for (int a = 0; a < 2; ++a) for (int c = 0; c < 2; ++c) Ws += sf*mu*t*A/2*s[e]*s[f]*(a == c ? 1 : -1)*(1+(n[0][a] == n[1][c]))/12*spec::dot<2>(G[n[0][1-a]], G[n[1][1-c]]); }
  ENSURES_EQ_L("bending + transverse shear energy of the MITC3 plate, added", W - W0, Wb + Ws);
  for (int i = 0; i < 9; ++i) { const D g = dW[i/3][i%3] - dW0[i]; ENSURES_EQ_L("gradient of the energy, added", g, VC_DIFF(W, u[i/3][i%3]));
    for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian, added", K[i/3][j/3][i%3][j%3] - K0[((i/3*3+j/3)*3+i%3)*3+j%3], VC_DIFF(g, u[j/3][j%3])); } }
VC(mitc3_lumped_mass) {
  D X[4][2], M[12], rho = vc_real("rho"), t = vc_real("thickness"); vc_reals(X[0], 8, "X"); const unsigned T[6] = {0,1,2, 2,1,3}; d2::MassLumped_ShellPlateBendingMITC3(M, rho, t, X[0], 4, T, 2);
  D S[4] = {0}; for (int e = 0; e < 2; ++e) { const D A = spec::area2(X[T[e*3]], X[T[e*3+1]], X[T[e*3+2]])/2; for (int k = 0; k < 3; ++k) S[T[e*3+k]] += A/3*rho*t; }
  for (int i = 0; i < 4; ++i) { ENSURES_EQ_L("lumped mass", M[i*3], S[i]); ENSURES_EQ_L("rotary inertia", M[i*3+1], S[i]*t*t/12); ENSURES_EQ_L("rotary inertia", M[i*3+2], S[i]*t*t/12); } }
