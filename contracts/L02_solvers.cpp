// direct solvers (block tri/penta-diagonal), incomplete factorizations, vector operations
// @opts: prune=0
// @assume: the systems are unrolled for the enumerated numbers of blocks and block sizes (all values, every non-zero pattern of three blocks)
#include <cassert>
#include <cmath>
#include <climits>
#include <cstring>
#include <array>
#include <complex>
#include <vector>
#include "vc.h"
#include "delfem2/ls_tridiagonal.h"
#include "delfem2/ls_pentadiagonal.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_ilu_block_sparse.h"
#include "delfem2/view_vectorx.h"
#include "delfem2/lsitrsol.h"
#include "delfem2/vecxitrsol.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CMatrixSparse<D> M; typedef std::vector<D> V; typedef std::vector<unsigned int> U;
// inverse of a d x d block; its pivot (determinant for d<=3) is required to be away from zero by m
static bool vc_positive = false; // generic block sizes branch on the sign of every pivot
static V inverse(const V &a, unsigned d, D m) {
  V r(d*d);
  if (d == 1) { REQUIRES(std::fabs(a[0]) > m); r[0] = 1/a[0]; }
  else if (d == 2) { const D t = a[0]*a[3]-a[1]*a[2]; REQUIRES(std::fabs(t) > m); r[0] = a[3]/t; r[1] = -a[1]/t; r[2] = -a[2]/t; r[3] = a[0]/t; }
  else if (d == 3) { const D t = a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); REQUIRES(std::fabs(t) > m);
    for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) { const unsigned p = (j+1)%3, q = (j+2)%3, s = (i+1)%3, u = (i+2)%3; r[i*3+j] = (a[p*3+s]*a[q*3+u] - a[p*3+u]*a[q*3+s])/t; } }
  else { V w = a; for (unsigned i = 0; i < d*d; ++i) r[i] = i%(d+1) == 0; for (unsigned i = 0; i < d; ++i) { const D p = w[i*d+i]; if (vc_positive) REQUIRES(p > m); else REQUIRES(std::fabs(p) > m); for (unsigned k = 0; k < d; ++k) { w[i*d+k] /= p; r[i*d+k] /= p; } for (unsigned j = 0; j < d; ++j) if (j != i) { const D f = w[j*d+i]; for (unsigned k = 0; k < d; ++k) { w[j*d+k] -= f*w[i*d+k]; r[j*d+k] -= f*r[i*d+k]; } } } }
  return r;
}
static V block(const V &a, unsigned N, unsigned d, unsigned i, unsigned j) { V r(d*d); for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) r[p*d+q] = a[(i*d+p)*N + j*d+q]; return r; }
static void product(V &c, D s, const V &a, const V &b, unsigned d) { for (unsigned i = 0; i < d; ++i) for (unsigned j = 0; j < d; ++j) for (unsigned k = 0; k < d; ++k) c[i*d+j] += s*a[i*d+k]*b[k*d+j]; }
// every pivot block of the elimination without exchange is regular
static void regular(V a, unsigned n, unsigned d, D m) {
  const unsigned N = n*d; for (unsigned k = 0; k < n; ++k) { const V p = inverse(block(a, N, d, k, k), d, m); if (k+1 == n) break; for (unsigned i = k+1; i < n; ++i) { V l(d*d, 0.0); product(l, 1, block(a, N, d, i, k), p, d); for (unsigned j = k+1; j < n; ++j) { V s = block(a, N, d, i, j); product(s, -1, l, block(a, N, d, k, j), d); for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[(i*d+p)*N + j*d+q] = s[p*d+q]; } } }
}
static void solves(const V &a, const V &x, const V &b, const char *l) { const unsigned N = (unsigned)b.size(); for (unsigned i = 0; i < N; ++i) { D s = 0; for (unsigned j = 0; j < N; ++j) s += a[i*N+j]*x[j]; ENSURES_EQ_L(l, s, b[i]); } }
static void fix(V &a, unsigned N, unsigned k) { for (unsigned j = 0; j < N; ++j) { a[k*N+j] = (j == k); a[j*N+k] = (j == k); } }
template<class MAT> static void stored_is(MAT &m, const V &a, int n, int d, int w, const char *l) {
  const int N = n*d; for (int i = -1; i <= n; ++i) for (int j = -1; j <= n; ++j) { const bool in = i >= 0 && j >= 0 && i < n && j < n && i-j <= w && j-i <= w; const D *p = m.GetValuePointer(i, j); ENSURES_L("blocks exactly in the band", (p != nullptr) == in); if (in) for (int k = 0; k < d*d; ++k) ENSURES_EQ_L(l, p[k], a[(i*d+k/d)*N + j*d+k%d]); }
}
// ---------------------------------------------------------- block tri-diagonal
template<unsigned d> static void tri(unsigned n, unsigned bc) {
  const unsigned N = n*d; d2::BlockTriDiagonalMatrix<d> m; m.Initialize(n); m.setZero(); V a(N*N, 0.0);
  if (n == 1) { V e(d*d); vc_reals(e.data(), d*d, "e"); for (unsigned k = 0; k < d*d; ++k) { m.GetValuePointer(0, 0)[k] = e[k]; a[k] = e[k]; } }
  for (unsigned e = 0; e+1 < n; ++e) { D em[2][2][d][d]; vc_reals(&em[0][0][0][0], 4*d*d, "em"); m.Merge(e, em); for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[((e+i)*d+p)*N + (e+j)*d+q] += em[i][j][p][q]; }
  stored_is(m, a, n, d, 1, "assembled"); if (bc != UINT_MAX) { m.FixBC(bc/d, bc%d); fix(a, N, bc); stored_is(m, a, n, d, 1, "fixed row and column are those of the identity"); }
  V b(N), x; vc_reals(b.data(), N, "b"); if (bc != UINT_MAX) b[bc] = 0; regular(a, n, d, 1e-9); m.Decompose(); x = b; m.Solve(x); ENSURES_L("size kept", x.size() == N); solves(a, x, b, "A x = b");
  V c(N), y; vc_reals(c.data(), N, "c"); y = c; m.Solve(y); solves(a, y, c, "second right-hand side");
}
VC(tridiagonal) { const unsigned n = 1 + vc_choose(5); switch (vc_choose(4)) { case 0: tri<1>(n, UINT_MAX); break; case 1: tri<2>(n, UINT_MAX); break; case 2: tri<3>(n, UINT_MAX); break; default: tri<4>(n > 3 ? 3 : n, UINT_MAX); } }
VC(tridiagonal_bc) { switch (vc_choose(3)) { case 0: tri<1>(4, vc_choose(4)); break; case 1: tri<2>(4, vc_choose(8)); break; default: tri<3>(3, vc_choose(9)); } }
// -------------------------------------------------------- block penta-diagonal
template<unsigned d> static void penta(unsigned n, unsigned bc) {
  const unsigned N = n*d; d2::BlockPentaDiagonalMatrix<d> m; m.Initialize(n); m.setZero(); ENSURES_L("number of blocks", m.nblk() == n); V a(N*N, 0.0);
  for (unsigned e = 0; e+2 < n; ++e) { D em[3][3][d][d]; vc_reals(&em[0][0][0][0], 9*d*d, "em"); m.Merge(e, em); for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[((e+i)*d+p)*N + (e+j)*d+q] += em[i][j][p][q]; }
  { V e(d*d); vc_reals(e.data(), d*d, "e"); const unsigned i = vc_choose(n), j = i < 2 ? i+2 : i-2; m.MergeBlock(i, j, e.data()); for (unsigned k = 0; k < d*d; ++k) a[(i*d+k/d)*N + j*d+k%d] += e[k]; }
  stored_is(m, a, n, d, 2, "assembled"); if (bc != UINT_MAX) { m.FixBC(bc/d, bc%d); fix(a, N, bc); stored_is(m, a, n, d, 2, "fixed row and column are those of the identity"); }
  V b(N), x; vc_reals(b.data(), N, "b"); if (bc != UINT_MAX) b[bc] = 0; regular(a, n, d, 1e-9); m.Decompose(); x = b; m.Solve(x); ENSURES_L("size kept", x.size() == N); solves(a, x, b, "A x = b");
}
VC(pentadiagonal) { const unsigned n = 4 + vc_choose(3); switch (vc_choose(3)) { case 0: penta<1>(n, UINT_MAX); break; case 1: penta<2>(n, UINT_MAX); break; default: penta<3>(n > 5 ? 5 : n, UINT_MAX); } }
VC(pentadiagonal_bc) { switch (vc_choose(2)) { case 0: penta<1>(5, vc_choose(5)); break; default: penta<2>(4, vc_choose(8)); } }
VC(pentadiagonal_solver) { // assembly of rectangular blocks, fixed degrees of freedom, solution
  const unsigned n = 4, N = 8; d2::LinearSystemSolver_BlockPentaDiagonal<2> s; s.Initialize(n); ENSURES_L("sizes", s.nblk() == n && s.ndim() == 2 && s.ndof() == N); s.BeginMerge(); V a(N*N, 0.0), b(N); ENSURES_L("right-hand side has the size", s.vec_r.size() == N); for (D v : s.vec_r) ENSURES_EQ_L("right-hand side is zero", v, 0);
  for (unsigned e = 0; e+2 < n; ++e) { D em[3][3][2][2]; vc_reals(&em[0][0][0][0], 36, "em"); const unsigned ip[3] = {e+1, e+2, e}; s.template Merge<3,3,2,2>(ip, ip, em); for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) for (unsigned p = 0; p < 2; ++p) for (unsigned q = 0; q < 2; ++q) a[(ip[i]*2+p)*N + ip[j]*2+q] += em[i][j][p][q]; }
  { D em[1][1][1][2]; vc_reals(&em[0][0][0][0], 2, "em"); const unsigned r[1] = {1}, c[1] = {3}; s.template Merge<1,1,1,2>(r, c, em); for (unsigned q = 0; q < 2; ++q) a[2*N + 6+q] += em[0][0][0][q]; }
  { D em[1][1][2][1]; vc_reals(&em[0][0][0][0], 2, "em"); const unsigned r[1] = {2}, c[1] = {0}; s.template Merge<1,1,2,1>(r, c, em); for (unsigned q = 0; q < 2; ++q) a[(4+q)*N] += em[0][0][q][0]; }
  const D v = vc_real("v"); const unsigned k = vc_choose(N); s.AddValueToDiagonal(k/2, k%2, v); a[k*N+k] += v; stored_is(s.dia, a, n, 2, 2, "assembled");
  vc_reals(b.data(), N, "b"); s.vec_r = b; const unsigned f = vc_choose(N), g = vc_choose(2) ? (f+3)%N : f; s.dof_bcflag[f] = s.dof_bcflag[g] = 1; fix(a, N, f); fix(a, N, g); b[f] = b[g] = 0; regular(a, n, 2, 1e-9); s.Solve(); solves(a, s.vec_x, b, "A x = b with the fixed degrees of freedom at zero"); for (unsigned i = 0; i < N; ++i) ENSURES_EQ_L("right-hand side fixed", s.vec_r[i], b[i]); }

// ------------------------------------------------------ incomplete factorization
static void pattern(M &A, unsigned n, unsigned dim, unsigned mask, bool descending) {
  U ind(1, 0), ptr; unsigned bit = 0;
  for (unsigned i = 0; i < n; ++i) { U row; for (unsigned j = 0; j < n; ++j) { if (i == j) continue; if (mask >> bit & 1) row.push_back(j); ++bit; } for (unsigned k = 0; k < row.size(); ++k) ptr.push_back(descending ? row[row.size()-1-k] : row[k]); ind.push_back((unsigned)ptr.size()); }
  A.Initialize(n, dim, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size());
}
static void values(M &A) { vc_reals(A.val_crs_.data(), (int)A.val_crs_.size(), "crs"); vc_reals(A.val_dia_.data(), (int)A.val_dia_.size(), "dia"); }
template<class X> static V dense(unsigned n, unsigned d, const U &ind, const U &ptr, const X &crs, const X &dia) {
  const unsigned N = n*d; V a(N*N, 0.0);
  for (unsigned i = 0; i < n; ++i) { for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[(i*d+p)*N + i*d+q] = dia[(i*d+p)*d+q];
    for (unsigned c = ind[i]; c < ind[i+1]; ++c) { const unsigned j = ptr[c]; for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[(i*d+p)*N + j*d+q] = crs[(c*d+p)*d+q]; } }
  return a;
}
static V dense(const M &A) { return dense(A.nrowblk_, A.nrowdim_, A.col_ind_, A.row_ptr_, A.val_crs_, A.val_dia_); }
typedef d2::CPreconditionerILU<D> P;
static bool in_pattern(const U &ind, const U &ptr, unsigned i, unsigned j) { if (i == j) return true; for (unsigned c = ind[i]; c < ind[i+1]; ++c) if (ptr[c] == j) return true; return false; }
static void well_formed(const P &p, const M &A) { // sorted rows, the diagonal index separates lower from upper, the pattern of A is kept
  const unsigned n = A.nrowblk_; ENSURES_L("shape", p.nblk == n && p.ndim == A.nrowdim_ && p.colInd.size() == n+1 && p.colInd[0] == 0 && p.colInd[n] == p.rowPtr.size() && p.m_diaInd.size() == n);
  for (unsigned i = 0; i < n; ++i) { ENSURES_L("diagonal index in the row", p.colInd[i] <= p.m_diaInd[i] && p.m_diaInd[i] <= p.colInd[i+1]); for (unsigned c = p.colInd[i]; c < p.colInd[i+1]; ++c) { const unsigned j = p.rowPtr[c]; ENSURES_L("valid column", j < n && j != i); ENSURES_L("sorted", c == p.colInd[i] || p.rowPtr[c-1] < j); ENSURES_L("lower part before the diagonal index", (j < i) == (c < p.m_diaInd[i])); }
    for (unsigned j = 0; j < n; ++j) if (in_pattern(A.col_ind_, A.row_ptr_, i, j)) ENSURES_L("pattern of the matrix is kept", in_pattern(p.colInd, p.rowPtr, i, j)); }
}
// (L+D)(I+U) agrees with A on the pattern
static void factors(P &p, const M &A) {
  const unsigned n = p.nblk, d = p.ndim, N = n*d; p.CopyValue(A); const V a = dense(n, d, p.colInd, p.rowPtr, p.valCrs, p.valDia), a0 = dense(A); for (unsigned i = 0; i < N*N; ++i) ENSURES_EQ_L("values are copied", a[i], a0[i]);
  std::vector<V> f(n*n), q(n); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { if (!in_pattern(p.colInd, p.rowPtr, i, j)) continue; V s = block(a, N, d, i, j); for (unsigned k = 0; k < i && k < j; ++k) if (!f[i*n+k].empty() && !f[k*n+j].empty()) product(s, -1, f[i*n+k], f[k*n+j], d);
    if (j < i) f[i*n+j] = s; else if (j == i) q[i] = inverse(s, d, 1e-30); else { f[i*n+j] = V(d*d, 0.0); product(f[i*n+j], 1, q[i], s, d); } }
  ENSURES_L("factorized", p.Decompose()); for (unsigned i = 0; i < n; ++i) { for (unsigned k = 0; k < d*d; ++k) ENSURES_EQ_L("inverse pivot block", p.valDia[i*d*d+k], q[i][k]); for (unsigned c = p.colInd[i]; c < p.colInd[i+1]; ++c) for (unsigned k = 0; k < d*d; ++k) ENSURES_EQ_L("factor", p.valCrs[c*d*d+k], f[i*n+p.rowPtr[c]][k]); }
}
VC(ilu0_patterns) { M A; pattern(A, 3, 1 + vc_choose(2), vc_choose(64), vc_choose(2)); values(A); P p; p.Initialize_ILUk(A, 0); well_formed(p, A); ENSURES_L("no fill", p.rowPtr.size() == A.row_ptr_.size()); factors(p, A); }
VC(ilu0_blocks) { M A; const unsigned m[4] = {63, 0x2d, 0x33, 0x1e}; const unsigned k = vc_choose(4); pattern(A, 3, 3, m[k], false); values(A); P p; p.SetPattern0(A); well_formed(p, A); factors(p, A); }
VC(ilu0_large_blocks) { M A; const unsigned m[2] = {63, 0x2d}; vc_positive = true; pattern(A, 3, 4 + vc_choose(2), m[vc_choose(2)], false); values(A); P p; p.SetPattern0(A); well_formed(p, A); factors(p, A); vc_positive = false; }
VC(ilu0_large_block_signs) { M A; pattern(A, 2, 4, 3, false); values(A); P p; p.SetPattern0(A); well_formed(p, A); factors(p, A); }
VC(ilu0_chain) { M A; pattern(A, 4, 1 + vc_choose(2), vc_choose(2) ? 0x999 : 0xb5d, vc_choose(2)); values(A); P p; p.SetPattern0(A); well_formed(p, A); factors(p, A); }
// substitution: y = (I+U)^-1 D^-1-scaled forward solution, any factor values
static void substitution(const M &A, unsigned l) {
  P p; p.SetPattern0(A); const unsigned n = p.nblk, d = p.ndim, N = n*d*l; vc_reals(p.valCrs.data(), (int)p.valCrs.size(), "f"); vc_reals(p.valDia.data(), (int)p.valDia.size(), "q"); const V a = dense(n, d, p.colInd, p.rowPtr, p.valCrs, p.valDia); V b(N), y, z; vc_reals(b.data(), N, "b"); y = b; if (l == 1) p.ForwardSubstitution(y.data()); else p.ForwardSubstitutionDegenerate(y.data(), l); const unsigned W = n*d;
  for (unsigned c = 0; c < l; ++c) for (unsigned i = 0; i < n; ++i) for (unsigned r = 0; r < d; ++r) { D s = 0; for (unsigned q = 0; q < d; ++q) { D t = b[(i*d+q)*l+c]; for (unsigned j = 0; j < i*d; ++j) t -= a[(i*d+q)*W+j]*y[j*l+c]; s += a[(i*d+r)*W + i*d+q]*t; } ENSURES_EQ_L("forward substitution", y[(i*d+r)*l+c], s); }
  z = y; if (l == 1) p.BackwardSubstitution(z.data()); else p.BackwardSubstitutionDegenerate(z.data(), l);
  for (unsigned c = 0; c < l; ++c) for (unsigned i = 0; i < n; ++i) for (unsigned r = 0; r < d; ++r) { D s = z[(i*d+r)*l+c]; for (unsigned j = (i+1)*d; j < W; ++j) s += a[(i*d+r)*W+j]*z[j*l+c]; ENSURES_EQ_L("backward substitution", s, y[(i*d+r)*l+c]); }
  if (l == 1) { V w = b; p.SolvePrecond(w.data()); for (unsigned i = 0; i < N; ++i) ENSURES_EQ_L("forward then backward", w[i], z[i]); }
}
VC(substitution_patterns) { M A; pattern(A, 3, 1 + vc_choose(2), vc_choose(64), vc_choose(2)); substitution(A, 1); }
VC(substitution_blocks) { M A; pattern(A, 3, 1 + vc_choose(6), 63 - 12*vc_choose(3), false); substitution(A, 1); }
VC(substitution_degenerate) { M A; pattern(A, 3, 1, vc_choose(64), vc_choose(2)); substitution(A, 2 + vc_choose(2)); }
// complete fill: the factorization is exact for every pattern
static void exact(const M &A) { P p; p.Initialize_ILUk(A, -1); well_formed(p, A); p.CopyValue(A); const V a = dense(A); const unsigned N = p.nblk*p.ndim; V b(N); vc_reals(b.data(), N, "b"); regular(a, p.nblk, p.ndim, 1e-30); ENSURES_L("factorized", p.Decompose()); V x = b; p.SolvePrecond(x.data()); solves(a, x, b, "A x = b"); }
VC(complete_fill_patterns) { M A; pattern(A, 3, 1 + vc_choose(2), vc_choose(64), vc_choose(2)); values(A); exact(A); }
VC(complete_fill_graphs) { M A; const unsigned m[6] = {0x999 /* chain */, 0xb5d /* ring */, 0x24f /* star at 0 */, 0xe8c /* star at 3 */, 0xfbf, 0x8d4}; pattern(A, 4, 1 + vc_choose(3), m[vc_choose(6)], vc_choose(2)); values(A); exact(A); }
static void levels(unsigned n, unsigned mask) { // more levels, more entries; enough levels, complete fill
  M A; pattern(A, n, 1, mask, false); U pi = A.col_ind_, pp = A.row_ptr_; P c; c.Initialize_ILUk(A, -1);
  for (int k = 0; k < (int)n; ++k) { P p; p.Initialize_ILUk(A, k); well_formed(p, A); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { if (in_pattern(pi, pp, i, j)) ENSURES_L("contains the lower level", in_pattern(p.colInd, p.rowPtr, i, j)); if (in_pattern(p.colInd, p.rowPtr, i, j)) ENSURES_L("within the complete fill", in_pattern(c.colInd, c.rowPtr, i, j)); if (k+1 == (int)n) ENSURES_L("complete", in_pattern(p.colInd, p.rowPtr, i, j) == in_pattern(c.colInd, c.rowPtr, i, j)); } pi = p.colInd; pp = p.rowPtr; } }
VC(fill_levels_patterns) { levels(3, vc_choose(64)); }
VC(fill_levels_graphs) { const unsigned e = vc_choose(64), b[6][2] = {{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}; unsigned mask = 0; for (unsigned k = 0; k < 6; ++k) if (e >> k & 1) { const unsigned i = b[k][0], j = b[k][1]; mask |= 1u << (i*3+j-1); mask |= 1u << (j*3+i); } levels(4, mask); }
