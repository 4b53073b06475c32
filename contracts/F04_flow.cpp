// element matrices: Stokes and Navier-Stokes (equal-order, stabilised)
#include "vc.h"
#include <cmath>
#include <vector>
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "spec.h"
#include "spec_fem.h"
namespace d2 = delfem2; using D = double;
namespace delfem2 {
void MakeMat_Stokes2D_Static_P1P1(double, double, double, const double[][2], const double[3][2], const double[3], double[][3][2][2], double[][3][2], double[][3][2], double[][3], double[][2], double[3]);
}
// C of the Stokes element: block (p,q) of nodes i,j; index DIM is the pressure
template<int N, int DIM> static D cst(const D (*G)[DIM], D V, D al, D tau, int i, int j, int p, int q) {
  if (p < DIM && q < DIM) return p == q ? V*al*spec::dot<DIM>(G[i], G[j]) : 0;
  if (p < DIM) return V*G[i][p]/N;
  if (q < DIM) return V*G[j][q]/N;
  return V*tau*spec::dot<DIM>(G[i], G[j]); }
template<int N, int DIM, class F> static void st_static(F f) {
  const int M = DIM+1; D X[N][DIM], G[N][DIM], u[N][M], r[N][M], K[N][N][M][M], al = vc_real("alpha"), g[3]; HAVOC(g); vc_reals(X[0], N*DIM, "X"); vc_reals(u[0], N*M, "u"); REQUIRES_POS(al, 1e-2);
  const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2); f(al, g, X, u, K, r);
  ENSURES_GE_L("pressure stabilisation is dissipative", -K[0][0][DIM][DIM], 0); const D tau = K[0][0][DIM][DIM]/(V*spec::dot<DIM>(G[0], G[0])); // the stabilisation parameter the code chose

  for (int i = 0; i < N; ++i) for (int p = 0; p < M; ++p) { D s = p < DIM ? V*g[p]/N : 0; for (int j = 0; j < N; ++j) for (int q = 0; q < M; ++q) { const D k = cst<N, DIM>(G, V, al, tau, i, j, p, q); s -= k*u[j][q]; ENSURES_EQ_L("Stokes matrix", K[i][j][p][q], k); }
    ENSURES_EQ_L("residual = body force - K (v,p)", r[i][p], s); } }
VC(stokes2_static) { st_static<3, 2>([](D al, const D *g, const D (*X)[2], const D (*u)[3], D (*K)[3][3][3], D (*r)[3]) { d2::EMat_Stokes2D_Static_P1(al, g[0], g[1], X, u, K, r); }); }
VC(stokes3_static) { st_static<4, 3>([](D al, const D *g, const D (*X)[3], const D (*u)[4], D (*K)[4][4][4], D (*r)[4]) { d2::MakeMat_Stokes3D_Static_P1(al, g[0], g[1], g[2], X, u, K, r); }); }
template<int N, int DIM, class F> static void st_dyn(F f) {
  const int M = DIM+1; D X[N][DIM], G[N][DIM], u[N][M], a[N][M], r[N][M], K[N][N][M][M], al = vc_real("alpha"), rho = vc_real("rho"), dt = vc_real("dt"), ga = vc_real("gamma"), g[3]; HAVOC(g); vc_reals(X[0], N*DIM, "X"); vc_reals(u[0], N*M, "u"); vc_reals(a[0], N*M, "a");
  REQUIRES_POS(al, 1e-2); REQUIRES_POS(dt, 1e-2); REQUIRES_POS(ga, 1e-2);
  const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2); f(al, rho, g, dt, ga, X, u, a, K, r);
  ENSURES_GE_L("pressure stabilisation is dissipative", -K[0][0][DIM][DIM], 0); const D tau = K[0][0][DIM][DIM]/(ga*dt*V*spec::dot<DIM>(G[0], G[0]));
  for (int i = 0; i < N; ++i) for (int p = 0; p < M; ++p) { D s = p < DIM ? V*g[p]/N : 0; for (int j = 0; j < N; ++j) for (int q = 0; q < M; ++q) {
      const D k = cst<N, DIM>(G, V, al, tau, i, j, p, q), m = (p == q && p < DIM)*rho*V*(1+spec::kron(i, j))/((DIM+1)*(DIM+2)); s -= k*(u[j][q]+dt*a[j][q]) + m*a[j][q]; ENSURES_EQ_L("system matrix = M + gamma dt C", K[i][j][p][q], m + ga*dt*k); }
    ENSURES_EQ_L("residual = body force - C (u + dt a) - M a", r[i][p], s); } }
VC(stokes2_dynamic) { st_dyn<3, 2>([](D al, D rho, const D *g, D dt, D ga, const D (*X)[2], const D (*u)[3], const D (*a)[3], D (*K)[3][3][3], D (*r)[3]) { d2::EMat_Stokes2D_Dynamic_P1(al, rho, g[0], g[1], dt, ga, X, u, a, K, r); }); }
VC(stokes3_dynamic) { st_dyn<4, 3>([](D al, D rho, const D *g, D dt, D ga, const D (*X)[3], const D (*u)[4], const D (*a)[4], D (*K)[4][4][4], D (*r)[4]) { d2::MakeMat_Stokes3D_Dynamic_P1(al, rho, g[0], g[1], g[2], dt, ga, X, u, a, K, r); }); }
VC(stokes3_dynamic_blocks) { st_dyn<4, 3>([](D al, D rho, const D *g, D dt, D ga, const D (*X)[3], const D (*u)[4], const D (*a)[4], D (*K)[4][4][4], D (*r)[4]) { // velocity and pressure in separate arrays
  D v[4][3], p[4], A[4][3], P[4], uu[4][4][3][3], up[4][4][3], pu[4][4][3], pp[4][4], ru[4][3], rp[4]; for (int i = 0; i < 4; ++i) { p[i] = u[i][3]; P[i] = a[i][3]; for (int k = 0; k < 3; ++k) { v[i][k] = u[i][k]; A[i][k] = a[i][k]; } }
  d2::MakeMat_Stokes3D_Dynamic_Newmark_P1P1(al, rho, g[0], g[1], g[2], dt, ga, X, v, p, A, P, uu, up, pu, pp, ru, rp);
  for (int i = 0; i < 4; ++i) { for (int k = 0; k < 3; ++k) r[i][k] = ru[i][k]; r[i][3] = rp[i]; for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) for (int l = 0; l < 4; ++l) K[i][j][k][l] = k < 3 && l < 3 ? uu[i][j][k][l] : k < 3 ? up[i][j][k] : l < 3 ? pu[i][j][l] : pp[i][j]; } }); }
// Navier-Stokes: Galerkin terms + SUPG/PSPG terms with the stabilisation
// parameter tau read back from the pressure block
template<int N, int DIM, class F> static void ns(F f) {
  const int M = DIM+1; D X[N][DIM], G[N][DIM], u[N][M], a[N][M], r[N][M], K[N][N][M][M], mu = vc_real("mu"), rho = vc_real("rho"), dt = vc_real("dt"), ga = vc_real("gamma"), g[3]; HAVOC(g); vc_reals(X[0], N*DIM, "X"); vc_reals(u[0], N*M, "u"); vc_reals(a[0], N*M, "a");
  REQUIRES_POS(mu, 1e-2); REQUIRES_POS(rho, 1e-2); REQUIRES_POS(dt, 1e-2); REQUIRES_POS(ga, 1e-2);
  const D V = spec::grad(G, X); REQUIRES_POS(V, 1e-2);
  D sum[DIM], ave[DIM]; for (int d = 0; d < DIM; ++d) { sum[d] = 0; for (int k = 0; k < N; ++k) sum[d] += u[k][d]; ave[d] = sum[d]/N; }
  REQUIRES_POS(spec::dot<DIM>(ave, ave), 1e-2); // the time scale of the stabilisation divides by the mean speed
  REQUIRES(dt > 1e-9); // the time scale of the stabilisation ignores dt/2 <= 1e-10
  f(mu, rho, g, dt, ga, X, u, a, K, r);
  const D tau = K[0][0][DIM][DIM]*rho/(ga*dt*V*spec::dot<DIM>(G[0], G[0]));
  const D w = 1.0/((DIM+1)*(DIM+2)); // int N_k N_l = w V (1+delta_kl)
  D uu[DIM][DIM]; for (int p = 0; p < DIM; ++p) for (int q = 0; q < DIM; ++q) { uu[p][q] = sum[p]*sum[q]; for (int k = 0; k < N; ++k) uu[p][q] += u[k][p]*u[k][q]; }
  for (int i = 0; i < N; ++i) for (int p = 0; p < M; ++p) { D s = p < DIM ? V*rho*g[p]/N : 0; for (int j = 0; j < N; ++j) for (int q = 0; q < M; ++q) { D c = 0, m = 0;
      if (p < DIM && q < DIM) { c = V*mu*G[j][p]*G[i][q];
        if (p == q) { c += V*mu*spec::dot<DIM>(G[i], G[j]); D ad = 0, su = 0, in = 0; for (int d = 0; d < DIM; ++d) { ad += (sum[d]+u[i][d])*G[j][d]; in += (sum[d]+u[j][d])*G[i][d]; for (int e = 0; e < DIM; ++e) su += G[i][d]*G[j][e]*uu[d][e]; }
          c += rho*V*w*(ad + tau*su); m = rho*V*w*(1+spec::kron(i, j)) + rho*tau*V*w*in; } }
      else if (p < DIM) { c = -V*G[i][p]/N + tau*V*spec::dot<DIM>(G[i], ave)*G[j][p]; }
      else if (q < DIM) { c = V*G[j][q]/N + tau*V*spec::dot<DIM>(G[j], ave)*G[i][q]; m = -tau*V*G[i][q]/N; }
      else c = V*tau/rho*spec::dot<DIM>(G[i], G[j]);
      s -= c*(u[j][q]+dt*a[j][q]) + m*a[j][q]; ENSURES_EQ_L("system matrix = M + gamma dt C", K[i][j][p][q], m + ga*dt*c); }
    ENSURES_EQ_L("residual = body force - C (u + dt a) - M a", r[i][p], s); } }
VC(navier_stokes2) { ns<3, 2>([](D mu, D rho, const D *g, D dt, D ga, const D (*X)[2], const D (*u)[3], const D (*a)[3], D (*K)[3][3][3], D (*r)[3]) { d2::EMat_NavierStokes2D_Dynamic_P1(mu, rho, g[0], g[1], dt, ga, X, u, a, K, r); }); }
VC(navier_stokes3) { ns<4, 3>([](D mu, D rho, const D *g, D dt, D ga, const D (*X)[3], const D (*u)[4], const D (*a)[4], D (*K)[4][4][4], D (*r)[4]) { d2::MakeMat_NavierStokes3D_Dynamic_P1(mu, rho, g[0], g[1], g[2], dt, ga, X, u, a, K, r); }); }
