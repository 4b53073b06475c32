// assembly of the element matrices into the system of a mesh
// @opts: prune=0
// @opts_for: assemble_navier_stokes_tet max_steps=90000000
// @assume: two elements that share an edge or face, one unused point, two numberings; loops over elements are unrolled for them
#include <cassert>
#include <climits>
#include <cmath>
#include <complex>
#include <algorithm>
#include <vector>
#include "vc.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/fem_poisson.h"
#include "delfem2/fem_helmholtz.h"
#include "delfem2/fem_solidlinear.h"
#include "delfem2/fem_stokes.h"
#include "delfem2/fem_navierstokes.h"
#include "delfem2/fem_mitc3.h"
#include "spec.h"
#include "spec_fem.h"
namespace d2 = delfem2; typedef double D; typedef std::vector<D> V; typedef std::vector<unsigned int> U; typedef std::complex<D> C;
static D rd(const char *s, D) { return vc_real(s); }
static C rd(const char *s, C) { const D r = vc_real(s), i = vc_real("im"); return C(r, i); }
static void eq(D a, D b, const char *l) { ENSURES_EQ_L(l, a, b); }
static void eq(C a, C b, const char *l) { ENSURES_EQ_L(l, a.real(), b.real()); ENSURES_EQ_L(l, a.imag(), b.imag()); }
template<class T> struct Sys { // the system before, and what is to be added
  d2::CMatrixSparse<T> A; std::vector<T> b, K, r; unsigned np, M; U e;
  void init(unsigned n, unsigned N, unsigned dim, const U &conn) { np = n; M = dim; e = conn; U ind(1, 0), ptr; for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) { bool in = false; for (unsigned k = 0; k+N <= e.size(); k += N) { bool a = false, c = false; for (unsigned l = 0; l < N; ++l) { a = a || e[k+l] == i; c = c || e[k+l] == j; } in = in || (a && c); } if (in && i != j) ptr.push_back(j); } ind.push_back((unsigned)ptr.size()); }
    A.Initialize(n, dim, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); for (T &x : A.val_crs_) x = rd("crs", T()); for (T &x : A.val_dia_) x = rd("dia", T()); b.resize(n*dim); for (T &x : b) x = rd("b", T()); K = dense(); r = b; }
  std::vector<T> dense() const { const unsigned L = np*M; std::vector<T> a(L*L, T(0)); for (unsigned i = 0; i < np; ++i) { for (unsigned p = 0; p < M; ++p) for (unsigned q = 0; q < M; ++q) a[(i*M+p)*L + i*M+q] = A.val_dia_[(i*M+p)*M+q]; for (unsigned c = A.col_ind_[i]; c < A.col_ind_[i+1]; ++c) for (unsigned p = 0; p < M; ++p) for (unsigned q = 0; q < M; ++q) a[(i*M+p)*L + A.row_ptr_[c]*M+q] = A.val_crs_[(c*M+p)*M+q]; } return a; }
  void zero() { std::fill(K.begin(), K.end(), T(0)); std::fill(r.begin(), r.end(), T(0)); }
  void add(unsigned el, unsigned N, const T *res, const T *mat) { const unsigned L = np*M, *p = e.data()+el*N; for (unsigned i = 0; i < N; ++i) for (unsigned a = 0; a < M; ++a) { r[p[i]*M+a] += res[i*M+a]; for (unsigned j = 0; j < N; ++j) for (unsigned c = 0; c < M; ++c) K[(p[i]*M+a)*L + p[j]*M+c] += mat[((i*N+j)*M+a)*M+c]; } }
  void check() { ENSURES_L("size of the right-hand side", b.size() == r.size()); for (unsigned i = 0; i < r.size() && i < b.size(); ++i) eq(b[i], r[i], "right-hand side: every element adds its residual"); const std::vector<T> a = dense(); for (unsigned i = 0; i < a.size(); ++i) eq(a[i], K[i], "matrix: every element adds its matrix"); }
};
static U mesh(unsigned N, unsigned &np, bool both = true) { const U l = N == 2 ? U{0,1, 1,2} : N == 3 ? U{0,1,2, 2,1,3} : N == 4 ? U{0,1,2,3, 2,1,0,4} : U{0,1,2,3,4,5,6,7}; np = N == 2 ? 4 : N == 3 ? 5 : N == 4 ? 6 : 9; const bool s = both ? vc_choose(2) : true; U e; for (unsigned i : l) if (both || e.size() < N) e.push_back(s ? np-1-i : i); return e; } // both: two elements in two numberings, else one element
// N nodes, DIM coordinates, M unknowns per node, n fields of nodal values; call(system, positions, fields, parameters), elem(residual, matrix, positions, fields, parameters)
template<unsigned N, unsigned DIM, unsigned M, class F, class G> static void assemble(bool zeroed, F call, G elem, bool both = true) {
  unsigned np; const U e = mesh(N, np, both); V X(np*DIM), f[3]; vc_reals(X.data(), (int)X.size(), "X"); for (V &v : f) { v.resize(np*M); vc_reals(v.data(), (int)v.size(), "f"); } D p[9]; HAVOC(p); for (unsigned k = 6; k < 9; ++k) REQUIRES_POS(p[k], 1e-2);
  for (unsigned k = 0; k+N <= e.size(); k += N) { D x[N][DIM], g[N][DIM]; for (unsigned i = 0; i < N; ++i) for (unsigned d = 0; d < DIM; ++d) x[i][d] = X[e[k+i]*DIM+d]; if constexpr (N == DIM+1) REQUIRES_POS(spec::grad(g, x), 1e-2); }
  Sys<D> s; s.init(np, N, M, e); call(s, X, f, p); if (zeroed) s.zero();
  for (unsigned k = 0; (k+1)*N <= e.size(); ++k) { D x[N][DIM], v[3][N][M], r[N][M], K[N][N][M][M]; for (unsigned i = 0; i < N; ++i) { for (unsigned d = 0; d < DIM; ++d) x[i][d] = X[e[k*N+i]*DIM+d]; for (unsigned q = 0; q < 3; ++q) for (unsigned d = 0; d < M; ++d) v[q][i][d] = f[q][e[k*N+i]*M+d]; } elem(r, K, x, v, p); s.add(k, N, &r[0][0], &K[0][0][0][0]); }
  s.check();
}
typedef Sys<D> S;
#define CALL [](S &s, const V &X, const V *f, const D *p)
#define E(N, DIM, M) [](D (*r)[M], D (*K)[N][M][M], const D (*x)[DIM], const D (*v)[N][M], const D *p)
#define AE s.e.data(), s.e.size()
// the stabilisation of the Navier-Stokes elements divides by the mean speed
static void moving(const S &s, const V &u, unsigned N, unsigned M) { for (unsigned k = 0; k < s.e.size(); k += N) { D q = 0; for (unsigned d = 0; d+1 < M; ++d) { D t = 0; for (unsigned i = 0; i < N; ++i) t += u[s.e[k+i]*M+d]; q += t*t; } REQUIRES_POS(q, 1e-2); } }
// p: 0-2 gravity or source, 3-5 material, 6 time step, 7 gamma, 8 beta
VC(assemble_poisson_tri) { assemble<3, 2, 1>(false, CALL { d2::MergeLinSys_Poission_MeshTri2D(s.A, s.b.data(), p[3], p[0], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data()); }, E(3, 2, 1) { d2::EMat_Poisson_Tri2D(&r[0][0], (D (*)[3])K, p[3], p[0], x, &v[0][0][0]); }); }
VC(assemble_poisson_tet) { assemble<4, 3, 1>(false, CALL { d2::MergeLinSys_Poission_MeshTet3D(s.A, s.b.data(), p[3], p[0], X.data(), s.np, s.e.data(), s.e.size()/4, f[0].data()); }, E(4, 3, 1) { d2::EMat_Poisson_Tet3D(&r[0][0], (D (*)[4])K, p[3], p[0], x, &v[0][0][0]); }); }
VC(assemble_diffusion_tri) { assemble<3, 2, 1>(false, CALL { d2::MergeLinSys_Diffusion_MeshTri2D(s.A, s.b.data(), p[3], p[4], p[0], p[6], p[7], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data(), f[1].data()); }, E(3, 2, 1) { d2::EMat_Diffusion_Tri2D(&r[0][0], (D (*)[3])K, p[3], p[0], p[6], p[7], p[4], x, &v[0][0][0], &v[1][0][0]); }); }
VC(assemble_diffusion_tet) { assemble<4, 3, 1>(false, CALL { d2::MergeLinSys_Diffusion_MeshTet3D(s.A, s.b.data(), p[3], p[4], p[0], p[6], p[7], X.data(), s.np, s.e.data(), s.e.size()/4, f[0].data(), f[1].data()); }, E(4, 3, 1) { d2::EMat_Diffusion_Newmark_Tet3D(&r[0][0], (D (*)[4])K, p[3], p[0], p[6], p[7], p[4], x, &v[0][0][0], &v[1][0][0]); }); }
VC(assemble_solid_static_tri) { assemble<3, 2, 2>(false, CALL { d2::MergeLinSys_SolidLinear_Static_MeshTri2D(s.A, s.b.data(), p[3], p[4], p[5], p[0], p[1], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data()); }, E(3, 2, 2) { d2::EMat_SolidStaticLinear_Tri2D(r, K, p[3], p[4], p[5], p[0], p[1], v[0], x); }); }
VC(assemble_solid_static_tet) { assemble<4, 3, 3>(false, CALL { d2::MergeLinSys_SolidLinear_Static_MeshTet3D(s.A, s.b.data(), p[3], p[4], p[5], p, X.data(), s.np, s.e.data(), s.e.size()/4, f[0].data()); }, E(4, 3, 3) { D g[4][3]; const D w = spec::grad(g, x); std::fill_n(&K[0][0][0][0], 144, 0.0); for (int i = 0; i < 12; ++i) r[0][i] = w*p[5]*p[i%3]/4; d2::EMat_SolidLinear_Static_Tet(K, r, p[3], p[4], x, v[0], true); }); }
VC(assemble_solid_newmark_tri) { assemble<3, 2, 2>(false, CALL { d2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTri2D(s.A, s.b.data(), p[3], p[4], p[5], p[0], p[1], p[6], p[7], p[8], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data(), f[1].data(), f[2].data()); }, E(3, 2, 2) { d2::EMat_SolidDynamicLinear_Tri2D(r, K, p[3], p[4], p[5], p[0], p[1], p[6], p[7], p[8], v[0], v[1], v[2], x, true); }); }
VC(assemble_solid_newmark_tet) { assemble<4, 3, 3>(false, CALL { d2::MergeLinSys_SolidLinear_NewmarkBeta_MeshTet3D(s.A, s.b.data(), p[3], p[4], p[5], p, p[6], p[7], p[8], X.data(), s.np, s.e.data(), s.e.size()/4, f[0].data(), f[1].data(), f[2].data()); }, E(4, 3, 3) { d2::EMat_SolidLinear_NewmarkBeta_MeshTet3D(r, K, p[3], p[4], p[5], p[0], p[1], p[2], p[6], p[7], p[8], v[0], v[1], v[2], x, true); }); }
// backward Euler: (M/dt^2 + K) dv = (f - K (u + dt v))/dt, M lumped
VC(assemble_solid_euler_tet) { assemble<4, 3, 3>(false, CALL { d2::MergeLinSys_SolidLinear_BEuler_MeshTet3D(s.A, s.b.data(), p[3], p[4], p[5], p, p[6], X.data(), s.np, s.e.data(), (unsigned)s.e.size()/4, f[0].data(), f[1].data()); }, E(4, 3, 3) {
  D g[4][3]; const D w = spec::grad(g, x), dt = p[6]; D k[4][4][3][3]; d2::SetEmat_LinearSolid3<4>(k, p[4], p[3], g, w); for (int i = 0; i < 4; ++i) for (int a = 0; a < 3; ++a) { D t = w*p[5]*p[a]/4; for (int j = 0; j < 4; ++j) for (int c = 0; c < 3; ++c) { t -= k[i][j][a][c]*(v[0][j][c] + dt*v[1][j][c]); K[i][j][a][c] = k[i][j][a][c] + spec::kron(i, j)*spec::kron(a, c)*p[5]*w/(4*dt*dt); } r[i][a] = t/dt; } }); }
// corotational: node i uses R_i K_ij R_i^T and measures the displacement from the rotated rest position
VC(assemble_stiffness_warping_tet) { unsigned np; const U e = mesh(4, np); V X(3*np), u(3*np), v(3*np), R(9*np); vc_reals(X.data(), (int)(3*np), "X"); vc_reals(u.data(), (int)(3*np), "u"); vc_reals(v.data(), (int)(3*np), "v"); vc_reals(R.data(), (int)(9*np), "R"); D p[6]; HAVOC(p); const D dt = vc_real("dt"); REQUIRES_POS(dt, 1e-2);
  for (unsigned k = 0; k < e.size(); k += 4) { D x[4][3], g[4][3]; for (int i = 0; i < 12; ++i) x[i/3][i%3] = X[3*e[k+i/3]+i%3]; REQUIRES_POS(spec::grad(g, x), 1e-2); }
  S s; s.init(np, 4, 3, e); d2::MergeLinSys_SolidStiffwarp_BEuler_MeshTet3D(s.A, s.b.data(), p[3], p[4], p[5], p, dt, X.data(), np, e.data(), (unsigned)e.size()/4, u.data(), v.data(), R);
  for (unsigned k = 0; k < e.size()/4; ++k) { D x[4][3], g[4][3], K0[4][4][3][3], K[4][4][3][3], r[4][3]; const unsigned *q = e.data()+4*k; for (int i = 0; i < 12; ++i) x[i/3][i%3] = X[3*q[i/3]+i%3]; const D w = spec::grad(g, x); d2::SetEmat_LinearSolid3<4>(K0, p[4], p[3], g, w);
    for (int i = 0; i < 4; ++i) { const D *Q = R.data()+9*q[i]; for (int a = 0; a < 3; ++a) r[i][a] = w*p[5]*p[a]/4; for (int j = 0; j < 4; ++j) { D d[3]; for (int a = 0; a < 3; ++a) d[a] = x[j][a] + u[3*q[j]+a] + dt*v[3*q[j]+a] - (Q[3*a]*x[j][0] + Q[3*a+1]*x[j][1] + Q[3*a+2]*x[j][2]);
      for (int a = 0; a < 3; ++a) for (int c = 0; c < 3; ++c) { D t = 0; for (int m = 0; m < 3; ++m) for (int n = 0; n < 3; ++n) t += Q[3*a+m]*K0[i][j][m][n]*Q[3*c+n]; r[i][a] -= t*d[c]; K[i][j][a][c] = t + (i == j && a == c ? p[5]*w/(4*dt*dt) : 0); } } for (int a = 0; a < 3; ++a) r[i][a] /= dt; } s.add(k, 4, &r[0][0], &K[0][0][0][0]); }
  s.check(); }
VC(assemble_solid_hex) { assemble<8, 3, 3>(true, CALL { d2::MergeLinSys_LinearSolid3D_Static_Q1(s.A, s.b, p[3], p[4], p[5], p, X, s.e, f[0]); }, E(8, 3, 3) { d2::elemMatRes_LinearSolidGravity3_Static_Q1(p[3], p[4], p[5], p, x, v[0], K, r); }); }
VC(assemble_stokes_static_tri) { assemble<3, 2, 3>(false, CALL { REQUIRES_POS(p[3], 1e-2); d2::MergeLinSys_StokesStatic2D(s.A, s.b.data(), p[3], p[0], p[1], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data()); }, E(3, 2, 3) { d2::EMat_Stokes2D_Static_P1(p[3], p[0], p[1], x, v[0], K, r); }); }
VC(assemble_stokes_dynamic_tri) { assemble<3, 2, 3>(false, CALL { REQUIRES_POS(p[3], 1e-2); d2::MergeLinSys_StokesDynamic2D(s.A, s.b.data(), p[3], p[4], p[0], p[1], p[6], p[7], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data(), f[1].data()); }, E(3, 2, 3) { d2::EMat_Stokes2D_Dynamic_P1(p[3], p[4], p[0], p[1], p[6], p[7], x, v[0], v[1], K, r); }); }
VC(assemble_stokes_static_tet) { assemble<4, 3, 4>(true, CALL { REQUIRES_POS(p[3], 1e-2); d2::MergeLinSys_Stokes3D_Static(s.A, s.b, p[3], p[4], p[0], p[1], p[2], X, s.e, f[0], f[1]); }, E(4, 3, 4) { d2::MakeMat_Stokes3D_Static_P1(p[3], p[0], p[1], p[2], x, v[0], K, r); }); }
VC(assemble_stokes_dynamic_tet) { assemble<4, 3, 4>(true, CALL { REQUIRES_POS(p[3], 1e-2); d2::MergeLinSys_Stokes3D_Dynamic(s.A, s.b, p[3], p[4], p[0], p[1], p[2], p[6], p[7], X, s.e, f[0], f[1]); }, E(4, 3, 4) { d2::MakeMat_Stokes3D_Dynamic_P1(p[3], p[4], p[0], p[1], p[2], p[6], p[7], x, v[0], v[1], K, r); }); }
VC(assemble_navier_stokes_tri) { assemble<3, 2, 3>(false, CALL { REQUIRES_POS(p[3], 1e-2); REQUIRES_POS(p[4], 1e-2); REQUIRES(p[6] > 1e-9); moving(s, f[0], 3, 3); d2::MergeLinSys_NavierStokes2D(s.A, s.b.data(), p[3], p[4], p[0], p[1], p[6], p[7], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data(), f[1].data()); }, E(3, 2, 3) { d2::EMat_NavierStokes2D_Dynamic_P1(p[3], p[4], p[0], p[1], p[6], p[7], x, v[0], v[1], K, r); }); }
VC(assemble_navier_stokes_tet) { assemble<4, 3, 4>(true, CALL { REQUIRES_POS(p[3], 1e-2); REQUIRES_POS(p[4], 1e-2); REQUIRES(p[6] > 1e-9); moving(s, f[0], 4, 4); d2::MergeLinSys_NavierStokes3D_Dynamic(s.A, s.b, p[3], p[4], p[0], p[1], p[2], p[6], p[7], X, s.e, f[0], f[1]); }, E(4, 3, 4) { d2::MakeMat_NavierStokes3D_Dynamic_P1(p[3], p[4], p[0], p[1], p[2], p[6], p[7], x, v[0], v[1], K, r); }, false); }
// plate: the residual is the weight minus the elastic force at the given deflection
VC(assemble_plate) { assemble<3, 2, 3>(false, CALL { REQUIRES_POS(p[5], 1e-2); d2::MergeLinSys_ShellStaticPlateBendingMITC3_MeshTri2D(s.A, s.b.data(), p[5], p[3], p[4], p[1], p[0], X.data(), s.np, s.e.data(), s.e.size()/3, f[0].data()); }, E(3, 2, 3) { D W = 0, g[3][2]; std::fill_n(&K[0][0][0][0], 81, 0.0); const D A = spec::grad(g, x); D dW[3][3]; std::fill_n(&dW[0][0], 9, 0.0); d2::WdWddW_PlateBendingMITC3(W, dW, K, x, v[0], p[5], p[3], p[4]); for (int i = 0; i < 3; ++i) for (int a = 0; a < 3; ++a) r[i][a] = (a ? 0 : p[1]*A*p[5]/3*p[0]) - dW[i][a]; }); }
template<unsigned N, class F, class G> static void waves(F call, G elem) { unsigned np; const U e = N == 2 ? (vc_choose(2) ? U{0,1, 1,2} : U{3,1, 1,0}) : mesh(3, np); np = N == 2 ? 4 : 5; V X(2*np); vc_reals(X.data(), (int)(2*np), "X"); std::vector<C> f(np); for (C &c : f) c = rd("f", C()); const D wl = vc_real("wl"); REQUIRES_POS(wl, 1e-2);
  for (unsigned k = 0; k+N <= e.size(); k += N) { D x[N][2]; for (unsigned i = 0; i < 2*N; ++i) x[i/2][i%2] = X[2*e[k+i/2]+i%2]; if constexpr (N == 3) { D g[3][2]; REQUIRES_POS(spec::grad(g, x), 1e-2); } else REQUIRES_POS((x[0][0]-x[1][0])*(x[0][0]-x[1][0]) + (x[0][1]-x[1][1])*(x[0][1]-x[1][1]), 1e-2); }
  Sys<C> s; s.init(np, N, 1, e); call(s, wl, X, f); for (unsigned k = 0; (k+1)*N <= e.size(); ++k) { D x[N][2]; C v[N], r[N], K[N][N]; for (unsigned i = 0; i < N; ++i) { x[i][0] = X[2*e[k*N+i]]; x[i][1] = X[2*e[k*N+i]+1]; v[i] = f[e[k*N+i]]; } elem(r, K, wl, x, v); s.add(k, N, r, &K[0][0]); } s.check(); }
VC(assemble_helmholtz) { waves<3>([](Sys<C> &s, D wl, const V &X, const std::vector<C> &f) { d2::MergeLinSys_Helmholtz_MeshTri2D(s.A, s.b.data(), wl, X.data(), s.np, s.e.data(), s.e.size()/3, f.data()); }, [](C *r, C (*K)[3], D wl, const D (*x)[2], const C *v) { d2::EMat_Helmholtz_Tri2D(r, K, wl, x, v); }); }
VC(assemble_radiation) { waves<2>([](Sys<C> &s, D wl, const V &X, const std::vector<C> &f) { const U l = {s.e[0], s.e[1], s.e[3]}; d2::MergeLinSys_SommerfeltRadiationBC_Polyline2D(s.A, s.b.data(), wl, X.data(), s.np, l.data(), l.size(), f.data()); }, [](C *r, C (*K)[2], D wl, const D (*x)[2], const C *v) { d2::EMat_SommerfeltRadiationBC_Line2D(r, K, wl, x, v); }); }
