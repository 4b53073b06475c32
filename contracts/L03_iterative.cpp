// iterative solvers and vector operations
// @opts: prune=0
// @assume: the systems are unrolled for two or three unknowns per block row and the enumerated numbers of iterations (all values)
#include <cassert>
#include <cmath>
#include <climits>
#include <cstring>
#include <array>
#include <complex>
#include <vector>
#include "vc.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/vecxitrsol.h"
#include "delfem2/ls_solver_block_sparse.h"
#include "delfem2/ls_solver_block_sparse_ilu.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CMatrixSparse<D> M; typedef std::vector<D> V; typedef std::vector<unsigned int> U; typedef d2::ViewAsVectorXd X;
static void full(M &A, unsigned n, unsigned dim) { U ind(1, 0), ptr; for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (i != j) ptr.push_back(j); ind.push_back((unsigned)ptr.size()); } A.Initialize(n, dim, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); }
static D &entry(M &A, unsigned I, unsigned J) { const unsigned d = A.nrowdim_, i = I/d, j = J/d; if (i == j) return A.val_dia_[(i*d+I%d)*d+J%d]; for (unsigned c = A.col_ind_[i]; c < A.col_ind_[i+1]; ++c) if (A.row_ptr_[c] == j) return A.val_crs_[(c*d+I%d)*d+J%d]; return A.val_dia_[0]; }
static V fill(M &A, bool symmetric) { const unsigned N = A.nrowblk_*A.nrowdim_; V a(N*N); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { a[i*N+j] = symmetric && j < i ? a[j*N+i] : vc_real("a"); entry(A, i, j) = a[i*N+j]; } return a; }
static V mul(const V &a, const V &x) { const unsigned N = (unsigned)x.size(); V y(N, 0.0); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) y[i] += a[i*N+j]*x[j]; return y; }
static D dot(const V &a, const V &b) { D s = 0; for (unsigned i = 0; i < a.size(); ++i) s += a[i]*b[i]; return s; }
static V lin(const V &a, D s, const V &b) { V r = a; for (unsigned i = 0; i < a.size(); ++i) r[i] += s*b[i]; return r; }
// the returned residual is b - A x and the last history entry is its norm relative to b (ratio) or itself
static void residual(const V &a, const V &b, const V &x, const V &r) { const V y = mul(a, x); for (unsigned i = 0; i < b.size(); ++i) ENSURES_EQ_L("residual is b - A x", r[i], b[i]-y[i]); }
// directions of the conjugate gradient method up to m iterations are regular
static void cg_regular(const V &a, const V &b, unsigned m, bool last) { V r = b, p = b; D s = dot(r, r); for (unsigned k = 0; k < m; ++k) { const V q = mul(a, p); const D t = dot(p, q); REQUIRES_NONZERO(t); r = lin(r, -s/t, q); const D u = dot(r, r); if (k+1 == m && last) break; REQUIRES_NONZERO(u); p = lin(r, u/s, p); s = u; } }
static void cg(unsigned n, unsigned d, unsigned m, bool symmetric) {
  M A; full(A, n, d); const unsigned N = n*d; const V a = fill(A, symmetric); V b(N), r, x(N), t0(N), t1(N); vc_reals(b.data(), N, "b"); vc_reals(x.data(), N, "x"); vc_reals(t0.data(), N, "t"); vc_reals(t1.data(), N, "t"); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(dot(b, b) > 1e-20); cg_regular(a, b, m < N ? m : N, m >= N); r = b;
  const V c = d2::Solve_CG(X(r), X(x), X(t0), X(t1), tol, m, A); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= N); residual(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*dot(b, b), dot(r, r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol);
  if (m >= N) { ENSURES_L("converges", c.back() < tol); if (c.size() == N) for (unsigned i = 0; i < N; ++i) ENSURES_EQ_L("exact after N iterations", r[i], 0); }
}
VC(cg_residual) { const unsigned m = 1 + vc_choose(3); cg(3, 1, m > 2 ? 2 : m, false); }
VC(cg_residual_blocks) { cg(2, 2, 1 + vc_choose(2), false); }
VC(cg_exact2) { cg(2, 1, 2 + vc_choose(2), true); }
VC(cg_exact3) { cg(3, 1, 4, true); }
VC(cg_zero) { M A; full(A, 2, 1); const V a = fill(A, false); V b(2), r, x(2), t0(2), t1(2); vc_reals(b.data(), 2, "b"); vc_reals(x.data(), 2, "x"); REQUIRES(dot(b, b) < 1e-31); r = b; const V c = d2::Solve_CG(X(r), X(x), X(t0), X(t1), vc_real("tol"), 5, A); ENSURES_L("no iteration", c.empty()); for (D v : x) ENSURES_EQ_L("zero", v, 0); for (unsigned i = 0; i < 2; ++i) ENSURES_EQ_L("residual", r[i], b[i]); }
// preconditioned: any preconditioner keeps the residual, the exact one needs one iteration
struct Prec { unsigned n; V m; void SolvePrecond(D *v) const { V t(n, 0.0); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) t[i] += m[i*n+j]*v[j]; for (unsigned i = 0; i < n; ++i) v[i] = t[i]; } };
static V prec(Prec &P, unsigned n) { P.n = n; P.m.resize(n*n); vc_reals(P.m.data(), n*n, "m"); return P.m; }
VC(pcg_residual) {
  M A; full(A, 2, 1 + vc_choose(2)); const unsigned N = 2*A.nrowdim_, m = N == 2 ? 1 + vc_choose(2) : 1; const V a = fill(A, false); Prec P; const V q = prec(P, N); V b(N), r, x(N), t0(N), t1(N); vc_reals(b.data(), N, "b"); vc_reals(x.data(), N, "x"); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(dot(b, b) > 1e-20);
  { V r0 = b, z = mul(q, b), p = z; D s = dot(r0, z); for (unsigned k = 0; k < m; ++k) { const V w = mul(a, p); const D t = dot(p, w); REQUIRES_NONZERO(t); r0 = lin(r0, -s/t, w); z = mul(q, r0); REQUIRES_NONZERO(s); const D u = dot(r0, z); p = lin(z, u/s, p); s = u; } }
  r = b; const V c = d2::Solve_PCG(X(r), X(x), X(t0), X(t1), tol, m, A, P); ENSURES_L("history", c.size() >= 2 && c.size() <= m+2); residual(a, b, x, r); ENSURES_EQ_L("initial residual", c[0]*c[0], dot(b, b)); ENSURES_EQ_L("final residual", c.back()*c.back(), dot(r, r)); if (c.size() < m+2) ENSURES_L("converged", std::sqrt(dot(r, r)*(1/dot(b, b))) < tol);
}
VC(pcg_exact2) { // symmetric matrix and preconditioner
  M A; full(A, 2, 1); const V a = fill(A, true); Prec P; V q = prec(P, 2); P.m[2] = P.m[1]; q = P.m; V b(2), r, x(2), t0(2), t1(2); vc_reals(b.data(), 2, "b"); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(dot(b, b) > 1e-20); { V r0 = b, z = mul(q, b), p = z; D s = dot(r0, z); REQUIRES_NONZERO(s); for (unsigned k = 0; k < 2; ++k) { const V w = mul(a, p); const D t = dot(p, w); REQUIRES_NONZERO(t); if (k == 1) break; r0 = lin(r0, -s/t, w); z = mul(q, r0); const D u = dot(r0, z); p = lin(z, u/s, p); s = u; } }
  r = b; const V c = d2::Solve_PCG(X(r), X(x), X(t0), X(t1), tol, 5, A, P); residual(a, b, x, r); ENSURES_L("converges within N iterations", c.size() <= 3); if (c.size() == 3) for (D v : r) ENSURES_EQ_L("exact", v, 0); }
VC(pcg_complete_factorization) { // one iteration
  M A; full(A, 2, 1 + vc_choose(2)); const unsigned N = 2*A.nrowdim_; const V a = fill(A, true); d2::CPreconditionerILU<D> ilu; ilu.Initialize_ILUk(A, 0); ilu.CopyValue(A);
  if (N == 2) { REQUIRES(a[0] > 1e-9); REQUIRES(a[3]-a[1]*a[2]/a[0] > 1e-9); } else { const D t = a[0]*a[5]-a[1]*a[4]; REQUIRES(t > 1e-9); V s(4); for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) { const D u = a[(2+i)*4], v = a[(2+i)*4+1], g = a[2+j], h = a[4+2+j]; s[i*2+j] = a[(2+i)*4+2+j] - (u*(a[5]*g-a[1]*h) + v*(a[0]*h-a[4]*g))/t; } REQUIRES(s[0]*s[3]-s[1]*s[2] > 1e-9); }
  ENSURES_L("factorized", ilu.Decompose()); V b(N), r, x(N), t0(N), t1(N), z; vc_reals(b.data(), N, "b"); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(dot(b, b) > 1e-20); z = b; ilu.SolvePrecond(z.data()); REQUIRES_NONZERO(dot(z, mul(a, z)));
  r = b; const V c = d2::Solve_PCG(X(r), X(x), X(t0), X(t1), tol, 10, A, ilu); ENSURES_L("one iteration", c.size() == 2); residual(a, b, x, r); for (D v : r) ENSURES_EQ_L("exact", v, 0); }
// bi-conjugate gradient stabilized
VC(bicgstab_residual) {
  M A; full(A, 2, 1); const unsigned N = 2, m = 1 + vc_choose(3); const V a = fill(A, false); V b(N), r, x; vc_reals(b.data(), N, "b"); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(dot(b, b) > 1e-20);
  { V r0 = b, p = b; D s = dot(b, b); for (unsigned k = 0; k < m; ++k) { const V w = mul(a, p); const D t = dot(w, b); REQUIRES_NONZERO(t); const D al = s/t; const V z = lin(r0, -al, w), v = mul(a, z); if (k == 1) break; REQUIRES(dot(v, v) > 0); const D om = dot(v, z)/dot(v, v); r0 = lin(z, -om, v); const D u = dot(r0, b); if (k+1 == m) { REQUIRES_NONZERO(s*om); break; } REQUIRES_NONZERO(s*om); const D be = u*al/(s*om); p = lin(r0, be, lin(p, -om, w)); s = u; } }
  r = b; const V c = d2::Solve_BiCGStab(r, x, tol, m, A); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= 2); residual(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*dot(b, b), dot(r, r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol); if (c.size() == 2) for (D v : r) ENSURES_EQ_L("exact after N iterations", v, 0); }
VC(bicgstab_zero) { M A; full(A, 2, 1); fill(A, false); V b(2), r, x(2, 0.0); vc_reals(b.data(), 2, "b"); REQUIRES(dot(b, b) < 1e-31); r = b; const V c = d2::Solve_BiCGStab(r, x, vc_real("tol"), 3, A); ENSURES_L("no iteration", c.empty()); }
VC(pbicgstab_residual) {
  M A; full(A, 2, 1); const unsigned N = 2, m = 1 + vc_choose(3); const V a = fill(A, false); Prec P; const V q = prec(P, N); V b(N), r, x(N); vc_reals(b.data(), N, "b"); vc_reals(x.data(), N, "x"); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(dot(b, b) > 1e-20);
  { V r0 = b, p = b; D s = dot(b, b); for (unsigned k = 0; k < m; ++k) { const V w = mul(a, mul(q, p)); const D t = dot(w, b); REQUIRES_NONZERO(t); const D al = s/t; const V z = lin(r0, -al, w), v = mul(a, mul(q, z)); if (k == 1) break; REQUIRES(dot(v, v) > 0); const D om = dot(v, z)/dot(v, v); r0 = lin(z, -om, v); const D u = dot(r0, b); REQUIRES_NONZERO(s*om); const D be = u*al/(s*om); p = lin(r0, be, lin(p, -om, w)); s = u; } }
  r = b; const V c = d2::Solve_PBiCGStab(r.data(), x.data(), tol, m+1, A, P); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= 2); residual(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*dot(b, b), dot(r, r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol); if (c.size() == 2) for (D v : r) ENSURES_EQ_L("exact after N iterations", v, 0); }
// linear system classes: assembly, fixed degrees of freedom, convergence
template<class S> static void system(S &s, bool ilu) {
  U ind = {0, 1, 2}, ptr = {1, 0}; s.Initialize(2, 1, ind, ptr); ENSURES_L("sizes", s.nblk() == 2 && s.ndim() == 1 && s.ndof() == 2); s.BeginMerge(); const unsigned ip[2] = {1, 0}; D e[2][2][1][1]; vc_reals(&e[0][0][0][0], 4, "e"); e[1][0][0][0] = e[0][1][0][0]; s.template Merge<2,2,1,1>(ip, ip, e); const D v = vc_real("v"); const unsigned k = vc_choose(2); s.AddValueToDiagonal(k, 0, v);
  V a = {e[1][1][0][0], e[1][0][0][0], e[0][1][0][0], e[0][0][0][0]}; a[k*3] += v; V b(2); vc_reals(b.data(), 2, "b"); s.vec_r = b; const unsigned f = vc_choose(3); if (f < 2) { s.dof_bcflag[f] = 1; b[f] = 0; for (unsigned j = 0; j < 2; ++j) a[f*2+j] = a[j*2+f] = (j == f); } REQUIRES(dot(b, b) > 1e-20); REQUIRES(a[0] > 1e-9); REQUIRES(a[3]-a[1]*a[2]/a[0] > 1e-9);
  if (ilu) { const D p = a[3]-a[1]*a[2]/a[0]; V z(2); z[1] = (b[1]-a[2]*b[0]/a[0])/p; z[0] = (b[0]-a[1]*z[1])/a[0]; REQUIRES_NONZERO(dot(z, b)); } else cg_regular(a, b, f < 2 ? 1 : 2, true);
  s.Solve_(); residual(a, b, s.vec_x, s.vec_r); ENSURES_L("residual below the tolerance", std::sqrt(dot(s.vec_r, s.vec_r)*(1/dot(b, b))) < 1e-4); if (f < 2) ENSURES_EQ_L("fixed degree of freedom stays", s.vec_x[f], 0); }
struct S0 : d2::LinearSystemSolver_BlockSparse { void Solve_() { Solve(); } };
struct S1 : d2::LinearSystemSolver_BlockSparseILU { void Solve_() { Solve_Cg(); } };
struct S2 : d2::LinearSystemSolver_BlockSparseILU { void Solve_() { Solve_PcgIlu(); } };
VC(system_cg) { S0 s; system(s, false); }
VC(system_ilu_cg) { S1 s; system(s, false); }
VC(system_ilu_pcg) { S2 s; system(s, true); }
// vector operations
VC(vector_operations) {
  const unsigned n = vc_choose(5); V x(n), y(n), z(n), w(n); vc_reals(x.data(), n, "x"); vc_reals(y.data(), n, "y"); vc_reals(z.data(), n, "z"); vc_reals(w.data(), n, "w"); const D a = vc_real("a"), b = vc_real("b"), g = vc_real("g"); const D d = dot(x, y);
  ENSURES_EQ_L("inner product", d2::Dot(x, y), d); ENSURES_EQ_L("inner product", d2::DotX(x.data(), y.data(), n), d); ENSURES_EQ_L("inner product", d2::Dot(X(x), X(y)), d); { V s = x; d2::AXPY(a, y, s); for (unsigned i = 0; i < n; ++i) ENSURES_EQ_L("y += a x", s[i], x[i]+a*y[i]); s = x; d2::AXPY(a, y.data(), s.data(), n); for (unsigned i = 0; i < n; ++i) ENSURES_EQ_L("y += a x", s[i], x[i]+a*y[i]); s = x; d2::ScaleX(s.data(), a, n); for (unsigned i = 0; i < n; ++i) ENSURES_EQ_L("scaled", s[i], a*x[i]); }
  { V s = x, t = x; X vs(s), vt(t), vy(y); d2::AddScaledVec(vs, a, vy); d2::ScaleAndAddVec(vt, b, vy); for (unsigned i = 0; i < n; ++i) { ENSURES_EQ_L("added", s[i], x[i]+a*y[i]); ENSURES_EQ_L("scaled and added", t[i], b*x[i]+y[i]); } vt = vy; for (unsigned i = 0; i < n; ++i) ENSURES_EQ_L("assigned", t[i], y[i]); vt.setZero(); for (D v : t) ENSURES_EQ_L("zero", v, 0); }
  std::vector<int> f(n); for (int &v : f) v = vc_choose(2) ? 1 + (int)vc_choose(2) : 0; { V s = x, t = x, u = x, h = x; d2::XPlusAY(s, n, f, a, y); d2::XPlusAYBZ(t, n, f, a, y, b, z); d2::XPlusAYBZCW(u, n, f, a, y, b, z, g, w); d2::setRHS_Zero(h, f, 0); for (unsigned i = 0; i < n; ++i) { ENSURES_EQ_L("x + a y on free entries", s[i], f[i] ? x[i] : x[i]+a*y[i]); ENSURES_EQ_L("x + a y + b z on free entries", t[i], f[i] ? x[i] : x[i]+a*y[i]+b*z[i]); ENSURES_EQ_L("x + a y + b z + c w on free entries", u[i], f[i] ? x[i] : x[i]+a*y[i]+b*z[i]+g*w[i]); ENSURES_EQ_L("zero where the flag differs", h[i], f[i] ? 0 : x[i]); } }
}
VC(orthonormalization) { const unsigned n = 1 + vc_choose(4); V x(n), y(n); vc_reals(x.data(), n, "x"); vc_reals(y.data(), n, "y"); REQUIRES_POS(dot(x, x), 1e-6); V u = x; d2::NormalizeX(u.data(), n); ENSURES_EQ_L("unit", dot(u, u), 1); ENSURES_GE_L("same direction", dot(u, x), 0); for (unsigned i = 0; i < n; ++i) ENSURES_EQ_L("parallel", u[i]*x[0], x[i]*u[0]); V v = y; d2::OrthogonalizeToUnitVectorX(v.data(), u.data(), n); ENSURES_EQ_L("orthogonal", dot(v, u), 0); const D s = dot(y, u); for (unsigned i = 0; i < n; ++i) ENSURES_EQ_L("only the component along the unit vector is removed", v[i]+s*u[i], y[i]); }
VC(dense_products) { const unsigned n = 1 + vc_choose(3), m = 1 + vc_choose(3), k = 1 + vc_choose(3); V A(n*m), x(m), y(n), t(m), z(m); vc_reals(A.data(), n*m, "A"); vc_reals(x.data(), m, "x"); vc_reals(y.data(), n, "y"); vc_reals(t.data(), m, "t"); const D a = vc_real("a"), b = vc_real("b"); V r(n); d2::MatVec(r.data(), A.data(), n, m, x.data()); for (unsigned i = 0; i < n; ++i) { D s = 0; for (unsigned j = 0; j < m; ++j) s += A[i*m+j]*x[j]; ENSURES_EQ_L("A x", r[i], s); }
  z = t; d2::MatTVec(z.data(), a, A.data(), n, m, y.data(), b); for (unsigned j = 0; j < m; ++j) { D s = b*t[j]; for (unsigned i = 0; i < n; ++i) s += a*A[i*m+j]*y[i]; ENSURES_EQ_L("a A^T y + b t", z[j], s); }
  V B(m*k), C(n*k), E(k*m), F(n*k); vc_reals(B.data(), m*k, "B"); vc_reals(E.data(), k*m, "E"); MatMatX(C.data(), n, k, A.data(), m, B.data()); MatMatTX(F.data(), n, k, A.data(), m, E.data()); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < k; ++j) { D s = 0, u = 0; for (unsigned l = 0; l < m; ++l) { s += A[i*m+l]*B[l*k+j]; u += A[i*m+l]*E[j*m+l]; } ENSURES_EQ_L("A B", C[i*k+j], s); ENSURES_EQ_L("A B^T", F[i*k+j], u); } }
// complex values
typedef std::complex<D> C;
static std::vector<C> complexes(unsigned n) { std::vector<C> r(n); for (C &c : r) { const D re = vc_real("re"), im = vc_real("im"); c = C(re, im); } return r; }
static void is(const char *l, const C &c, D re, D im) { ENSURES_EQ_L(l, c.real(), re); ENSURES_EQ_L(l, c.imag(), im); }
VC(complex_vectors) { const unsigned n = 1 + vc_choose(3); const std::vector<C> x = complexes(n), y = complexes(n); const C a = complexes(1)[0]; D hr = 0, hi = 0, sr = 0, si = 0; for (unsigned i = 0; i < n; ++i) { hr += x[i].real()*y[i].real()+x[i].imag()*y[i].imag(); hi += x[i].imag()*y[i].real()-x[i].real()*y[i].imag(); sr += x[i].real()*y[i].real()-x[i].imag()*y[i].imag(); si += x[i].real()*y[i].imag()+x[i].imag()*y[i].real(); }
  is("Hermitian product", d2::Dot(x, y), hr, hi); is("Hermitian product", d2::DotX(x.data(), y.data(), n), hr, hi); is("sum of products", d2::MultSumX(x.data(), y.data(), n), sr, si); std::vector<C> z = x; d2::AXPY(a, y.data(), z.data(), n); for (unsigned i = 0; i < n; ++i) is("y += a x", z[i], x[i].real()+a.real()*y[i].real()-a.imag()*y[i].imag(), x[i].imag()+a.real()*y[i].imag()+a.imag()*y[i].real()); }
// complex systems; z holds (re, im)
typedef std::vector<C> W; typedef d2::CMatrixSparse<C> MC;
static C mulc(const C &a, const C &b) { return C(a.real()*b.real()-a.imag()*b.imag(), a.real()*b.imag()+a.imag()*b.real()); }
static C addc(const C &a, const C &b) { return C(a.real()+b.real(), a.imag()+b.imag()); }
static C negc(const C &a) { return C(-a.real(), -a.imag()); }
static C conjc(const C &a) { return C(a.real(), -a.imag()); }
static D absc(const C &a) { return a.real()*a.real()+a.imag()*a.imag(); }
static C divc(const C &a, const C &b) { const D t = absc(b); const C p = mulc(a, conjc(b)); return C(p.real()/t, p.imag()/t); }
static C dotc(const W &a, const W &b) { C s(0, 0); for (unsigned i = 0; i < a.size(); ++i) s = addc(s, mulc(a[i], conjc(b[i]))); return s; }
static C dotu(const W &a, const W &b) { C s(0, 0); for (unsigned i = 0; i < a.size(); ++i) s = addc(s, mulc(a[i], b[i])); return s; }
static W mulv(const W &a, const W &x) { const unsigned N = (unsigned)x.size(); W y(N, C(0, 0)); for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) y[i] = addc(y[i], mulc(a[i*N+j], x[j])); return y; }
static W linc(const W &a, const C &s, const W &b) { W r = a; for (unsigned i = 0; i < a.size(); ++i) r[i] = addc(a[i], mulc(s, b[i])); return r; }
static void fullc(MC &A, unsigned n) { U ind(1, 0), ptr; for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (i != j) ptr.push_back(j); ind.push_back((unsigned)ptr.size()); } A.Initialize(n, 1, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); }
static void put(MC &A, const W &a) { const unsigned n = A.nrowblk_; for (unsigned i = 0; i < n; ++i) { A.val_dia_[i] = a[i*n+i]; for (unsigned c = A.col_ind_[i]; c < A.col_ind_[i+1]; ++c) A.val_crs_[c] = a[i*n+A.row_ptr_[c]]; } }
static void residualc(const W &a, const W &b, const W &x, const W &r) { const W y = mulv(a, x); for (unsigned i = 0; i < b.size(); ++i) is("residual is b - A x", r[i], b[i].real()-y[i].real(), b[i].imag()-y[i].imag()); }
static void nonzero(const C &c) { REQUIRES_NONZERO(absc(c)); }
struct PrecC { W m; void SolvePrecond(C *v) const { const W t = mulv(m, W(v, v+2)); v[0] = t[0]; v[1] = t[1]; } };
static D norm2(const W &b) { return dotc(b, b).real(); }
VC(complex_products) { const unsigned n = 3; MC A; U ind(1, 0), ptr; const unsigned mask = vc_choose(64); unsigned bit = 0; for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < n; ++j) if (i != j) { if (mask >> bit & 1) ptr.push_back(j); ++bit; } ind.push_back((unsigned)ptr.size()); } A.Initialize(n, 1, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); A.val_crs_ = complexes((unsigned)ptr.size()); A.val_dia_ = complexes(n); W a(9, C(0, 0)); for (unsigned i = 0; i < n; ++i) { a[i*4] = A.val_dia_[i]; for (unsigned c = ind[i]; c < ind[i+1]; ++c) a[i*n+ptr[c]] = A.val_crs_[c]; }
  const W x = complexes(n), y = complexes(n); const C al = complexes(1)[0], be = complexes(1)[0]; W z = y; A.MatVec(z.data(), al, x.data(), be); const W q = mulv(a, x); for (unsigned i = 0; i < n; ++i) { const C e = addc(mulc(al, q[i]), mulc(be, y[i])); is("y = alpha A x + beta y", z[i], e.real(), e.imag()); } }
VC(complex_factorization) { const unsigned n = 2 + vc_choose(2); MC A; fullc(A, n); const W a = complexes(n*n), b = complexes(n); put(A, a); W u = a; for (unsigned k = 0; k < n; ++k) { nonzero(u[k*n+k]); for (unsigned i = k+1; i < n; ++i) { const C l = divc(u[i*n+k], u[k*n+k]); for (unsigned j = k; j < n; ++j) u[i*n+j] = addc(u[i*n+j], negc(mulc(l, u[k*n+j]))); } }
  d2::CPreconditionerILU<C> p; p.Initialize_ILUk(A, vc_choose(2) ? -1 : 0); p.CopyValue(A); ENSURES_L("factorized", p.Decompose()); W x = b; p.SolvePrecond(x.data()); const W y = mulv(a, x); for (unsigned i = 0; i < n; ++i) is("A x = b", y[i], b[i].real(), b[i].imag()); }
static W hermitian(unsigned n) { W a(n*n); for (unsigned i = 0; i < n; ++i) { a[i*n+i] = C(vc_real("d"), 0); for (unsigned j = i+1; j < n; ++j) { a[i*n+j] = complexes(1)[0]; a[j*n+i] = conjc(a[i*n+j]); } } return a; }
VC(complex_cg) { const unsigned m = 1 + vc_choose(3); MC A; fullc(A, 2); const W a = hermitian(2), b = complexes(2); put(A, a); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(norm2(b) > 1e-20);
  { W r = b, p = b; D s = norm2(r); for (unsigned k = 0; k < m && k < 2; ++k) { const W q = mulv(a, p); const D t = dotc(p, q).real(); REQUIRES_NONZERO(t); if (k == 1) break; r = linc(r, C(-s/t, 0), q); const D u = norm2(r); REQUIRES_NONZERO(u); p = linc(r, C(u/s, 0), p); s = u; } }
  W r = b, x = complexes(2); const V c = d2::Solve_CG_Complex(r, x, tol, m, A); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= 2); residualc(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*norm2(b), norm2(r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol); if (c.size() == 2) for (const C &v : r) is("exact", v, 0, 0); }
VC(complex_bicgstab) { const unsigned m = 1 + vc_choose(3); MC A; fullc(A, 2); const W a = complexes(4), b = complexes(2); put(A, a); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(norm2(b) > 1e-20);
  { W r = b, p = b; C s = dotc(b, b); for (unsigned k = 0; k < m; ++k) { const W w = mulv(a, p); const C t = dotc(w, b); nonzero(t); const C al = divc(s, t); const W z = linc(r, negc(al), w), v = mulv(a, z); if (k == 1) break; REQUIRES(norm2(v) > 0); const C om = divc(dotc(z, v), C(norm2(v), 0)); r = linc(z, negc(om), v); nonzero(mulc(s, om)); const C u = dotc(r, b), be = divc(mulc(u, al), mulc(s, om)); p = linc(r, be, linc(p, negc(om), w)); s = u; } }
  W r = b, x; const V c = d2::Solve_BiCGSTAB_Complex(r, x, tol, m, A); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= 2); residualc(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*norm2(b), norm2(r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol); if (c.size() == 2) for (const C &v : r) is("exact after N iterations", v, 0, 0); }
VC(complex_pbicgstab) { const unsigned m = 1 + vc_choose(3); MC A; fullc(A, 2); const W a = complexes(4), b = complexes(2); put(A, a); PrecC P; P.m = complexes(4); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(norm2(b) > 1e-20);
  { W r = b, p = b; C s = dotc(b, b); for (unsigned k = 0; k < m; ++k) { const W w = mulv(a, mulv(P.m, p)); const C t = dotc(w, b); nonzero(t); const C al = divc(s, t); const W z = linc(r, negc(al), w), v = mulv(a, mulv(P.m, z)); if (k == 1) break; REQUIRES(norm2(v) > 0); const C om = divc(dotc(z, v), C(norm2(v), 0)); r = linc(z, negc(om), v); nonzero(mulc(s, om)); const C u = dotc(r, b), be = divc(mulc(u, al), mulc(s, om)); p = linc(r, be, linc(p, negc(om), w)); s = u; } }
  W r = b, x = complexes(2); const V c = d2::Solve_PBiCGStab_Complex(r.data(), x.data(), tol, m, A, P); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= 2); residualc(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*norm2(b), norm2(r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol); if (c.size() == 2) for (const C &v : r) is("exact after N iterations", v, 0, 0); }
VC(complex_pcg) { const unsigned m = 1 + vc_choose(2); MC A; fullc(A, 2); const W a = hermitian(2), b = complexes(2); put(A, a); PrecC P; P.m = hermitian(2); const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(norm2(b) > 1e-20);
  { W r = b, z = mulv(P.m, b), p = z; C s = dotc(r, z); for (unsigned k = 0; k < m; ++k) { const W w = mulv(a, p); const D t = dotc(p, w).real(); REQUIRES_NONZERO(t); const C al(s.real()/t, s.imag()/t); r = linc(r, negc(al), w); z = mulv(P.m, r); nonzero(s); const C u = dotc(r, z); p = linc(z, divc(u, s), p); s = u; } }
  W r = b, x = complexes(2); const V c = d2::Solve_PCG_Complex(r.data(), x.data(), tol, m, A, P); residualc(a, b, x, r); ENSURES_L("history", c.size() >= 2 && c.size() <= m+2); if (c.size() < m+2) ENSURES_L("converged", c.back() < tol); else ENSURES_EQ_L("final residual", c.back()*c.back(), norm2(r)); }
VC(complex_cocg) { const unsigned m = 1 + vc_choose(3); MC A; fullc(A, 2); W a = complexes(4); a[2] = a[1]; const W b = complexes(2); put(A, a); PrecC P; P.m = complexes(4); P.m[2] = P.m[1]; const D tol = vc_real("tol"); REQUIRES(tol > 0); REQUIRES(norm2(b) > 1e-20);
  { W r = b, z = mulv(P.m, b), p = z; C s = dotu(r, z); for (unsigned k = 0; k < m && k < 2; ++k) { const W w = mulv(a, p); const C t = dotu(p, w); nonzero(t); nonzero(s); if (k == 1) break; r = linc(r, negc(divc(s, t)), w); z = mulv(P.m, r); const C u = dotu(r, z); p = linc(z, divc(u, s), p); s = u; } }
  W r = b, x = complexes(2); const V c = d2::Solve_PCOCG(r.data(), x.data(), tol, m, A, P); ENSURES_L("one entry per iteration", c.size() >= 1 && c.size() <= m && c.size() <= 2); residualc(a, b, x, r); ENSURES_EQ_L("relative residual", c.back()*c.back()*norm2(b), norm2(r)); ENSURES_L("converged or out of iterations", c.size() == m || c.back() < tol); if (c.size() == 2) for (const C &v : r) is("exact", v, 0, 0); }
VC(distance) { const unsigned n = 1 + vc_choose(3); V x(n), y(n); vc_reals(x.data(), n, "x"); vc_reals(y.data(), n, "y"); D s = 0; for (unsigned i = 0; i < n; ++i) s += (x[i]-y[i])*(x[i]-y[i]); const D d = d2::Distance(x, y); ENSURES_EQ_L("Euclidean distance", d*d, s); ENSURES_GE_L("not negative", d, 0); }
VC(ilu_copy) { M A; full(A, 3, 2); fill(A, false); d2::CPreconditionerILU<D> p; p.Initialize_ILUk(A, 0); vc_reals(p.valCrs.data(), (int)p.valCrs.size(), "f"); vc_reals(p.valDia.data(), (int)p.valDia.size(), "q"); d2::CPreconditionerILU<D> q(p); V b(6), c; vc_reals(b.data(), 6, "b"); c = b; p.SolvePrecond(b.data()); q.SolvePrecond(c.data()); for (unsigned i = 0; i < 6; ++i) ENSURES_EQ_L("the copy acts alike", c[i], b[i]); }
VC(bicgstab_multiple_of_identity) { // the first half step is exact
  const unsigned w = vc_choose(4); const D l = vc_real("l"), tol = vc_real("tol"); REQUIRES_NONZERO(l); REQUIRES(tol > 0); std::vector<D> c; if (w < 2) { M A; full(A, 3, 1); V b(3), r, x(3); for (unsigned i = 0; i < 3; ++i) entry(A, i, i) = l; vc_reals(b.data(), 3, "b"); REQUIRES(dot(b, b) > 1e-20); r = b; Prec P; P.n = 3; P.m.assign(9, 0.0); for (unsigned i = 0; i < 3; ++i) P.m[i*4] = 1/l; if (w) c = d2::Solve_BiCGStab(r, x, tol, 5, A); else c = d2::Solve_PBiCGStab(r.data(), x.data(), tol, 5, A, P); for (unsigned i = 0; i < 3; ++i) { ENSURES_EQ_L("solution", l*x[i], b[i]); ENSURES_EQ_L("residual", r[i], 0); } }
  else { MC A; fullc(A, 2); const C i0(0, 0), g(l, vc_real("m")); put(A, W{g, i0, i0, g}); const W b = complexes(2); REQUIRES(norm2(b) > 1e-20); W r = b, x(2); PrecC P; P.m = W{divc(C(1, 0), g), i0, i0, divc(C(1, 0), g)}; if (w == 2) c = d2::Solve_BiCGSTAB_Complex(r, x, tol, 5, A); else c = d2::Solve_PBiCGStab_Complex(r.data(), x.data(), tol, 5, A, P); for (unsigned i = 0; i < 2; ++i) { const C p = mulc(g, x[i]); is("solution", p, b[i].real(), b[i].imag()); is("residual", r[i], 0, 0); } }
  ENSURES_L("one iteration", c.size() == 1); ENSURES_EQ_L("converged", c[0], 0); }
