// block sparse matrices: products, assembly, boundary conditions, scaling, master-slave constraints
// @opts: prune=0
// @assume: matrices are unrolled for the enumerated numbers of blocks and block sizes (all values, every non-zero pattern of three blocks)
#include <cassert>
#include <cmath>
#include <climits>
#include <array>
#include "vc.h"
#include "delfem2/ls_block_sparse.h"
#include "delfem2/ls_masterslave.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CMatrixSparse<D> M; typedef std::vector<D> V; typedef std::vector<unsigned int> U;
// pattern from the bits of mask (one per off-diagonal block), columns in ascending or descending order
static void pattern(M &A, unsigned n, unsigned dim, unsigned mask, bool descending) {
  U ind(1, 0), ptr; unsigned bit = 0;
  for (unsigned i = 0; i < n; ++i) { U row; for (unsigned j = 0; j < n; ++j) { if (i == j) continue; if (mask >> bit & 1) row.push_back(j); ++bit; } for (unsigned k = 0; k < row.size(); ++k) ptr.push_back(descending ? row[row.size()-1-k] : row[k]); ind.push_back((unsigned)ptr.size()); }
  A.Initialize(n, dim, true); A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size());
}
static void values(M &A) { vc_reals(A.val_crs_.data(), (int)A.val_crs_.size(), "crs"); vc_reals(A.val_dia_.data(), (int)A.val_dia_.size(), "dia"); }
static V dense(const M &A) {
  const unsigned n = A.nrowblk_, d = A.nrowdim_, N = n*d; V a(N*N, 0.0);
  for (unsigned i = 0; i < n; ++i) { for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[(i*d+p)*N + i*d+q] = A.val_dia_[(i*d+p)*d+q];
    for (unsigned c = A.col_ind_[i]; c < A.col_ind_[i+1]; ++c) { const unsigned j = A.row_ptr_[c]; for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[(i*d+p)*N + j*d+q] = A.val_crs_[(c*d+p)*d+q]; } }
  return a;
}
static bool stored(const M &A, unsigned i, unsigned j) { if (i == j) return true; for (unsigned c = A.col_ind_[i]; c < A.col_ind_[i+1]; ++c) if (A.row_ptr_[c] == j) return true; return false; }
static void same(const V &a, const V &b, const char *l) { ENSURES_L("size", a.size() == b.size()); for (unsigned i = 0; i < a.size(); ++i) ENSURES_EQ_L(l, a[i], b[i]); }

static void products(const M &A) {
  const unsigned N = A.nrowblk_*A.nrowdim_; const V a = dense(A); V x(N), y(N), z(N); vc_reals(x.data(), N, "x"); vc_reals(y.data(), N, "y"); const D alpha = vc_real("alpha"), beta = vc_real("beta");
  z = y; A.MatVec(z.data(), alpha, x.data(), beta);
  for (unsigned i = 0; i < N; ++i) { D s = beta*y[i]; for (unsigned j = 0; j < N; ++j) s += alpha*a[i*N+j]*x[j]; ENSURES_EQ_L("y = alpha A x + beta y", z[i], s); }
  z = y; A.MatTVec(z.data(), alpha, x.data(), beta);
  for (unsigned i = 0; i < N; ++i) { D s = beta*y[i]; for (unsigned j = 0; j < N; ++j) s += alpha*a[j*N+i]*x[j]; ENSURES_EQ_L("y = alpha A^T x + beta y", z[i], s); }
}
VC(products_patterns) { M A; const unsigned d = 1 + vc_choose(2); pattern(A, 3, d, vc_choose(64), vc_choose(2)); values(A); products(A); }
VC(products_blocks) { M A; const unsigned m[3] = {63, 0x15, 0x22}; pattern(A, 3, 1 + vc_choose(6), m[vc_choose(3)], vc_choose(2)); values(A); products(A); }
VC(products_chain) { M A; pattern(A, 5, 3, 0x8c631 /* chain */, false); values(A); products(A); }
VC(products_degenerate) { // every entry stands for a multiple of the identity
  M A; pattern(A, 3, 1, vc_choose(64), vc_choose(2)); values(A); const unsigned l = 1 + vc_choose(3), N = 3*l; const V a = dense(A); V x(N), y(N), z; vc_reals(x.data(), N, "x"); vc_reals(y.data(), N, "y"); const D alpha = vc_real("alpha"), beta = vc_real("beta");
  z = y; A.MatVecDegenerate(z.data(), l, alpha, x.data(), beta); for (unsigned i = 0; i < 3; ++i) for (unsigned k = 0; k < l; ++k) { D s = beta*y[i*l+k]; for (unsigned j = 0; j < 3; ++j) s += alpha*a[i*3+j]*x[j*l+k]; ENSURES_EQ_L("y = alpha (A x I) x + beta y", z[i*l+k], s); }
}
VC(pattern_and_zero) {
  M A; const unsigned mask = vc_choose(64), d = 1 + vc_choose(2); const bool desc = vc_choose(2); pattern(A, 3, d, mask, desc); const V z = dense(A); for (D v : z) ENSURES_EQ_L("new matrix is zero", v, 0);
  unsigned bit = 0; for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) if (i != j) { ENSURES_L("stored exactly where the pattern says", stored(A, i, j) == (mask >> bit & 1)); ++bit; }
  values(A); A.setZero(); const V y = dense(A); for (D v : y) ENSURES_EQ_L("zero after setZero", v, 0); A.Clear(); ENSURES_L("empty after Clear", A.nrowblk_ == 0 && A.val_crs_.empty() && A.val_dia_.empty() && A.row_ptr_.empty());
}
VC(copy) { M A, B; pattern(A, 3, 2, vc_choose(64), vc_choose(2)); values(A); B = A; ENSURES_L("same shape", B.nrowblk_ == 3 && B.ncolblk_ == 3 && B.nrowdim_ == 2 && B.ncoldim_ == 2); same(dense(B), dense(A), "copied values"); const V a = dense(A); A.setZero(); same(dense(B), a, "the copy is deep"); }

// assembly: the element matrix is added at the rows and columns of its nodes, nothing else changes
static void scattered(const M &A, V a, unsigned nr, const unsigned *r, unsigned nc, const unsigned *c, const D *e) {
  const unsigned d = A.nrowdim_, N = A.nrowblk_*d; for (unsigned i = 0; i < nr; ++i) for (unsigned j = 0; j < nc; ++j) for (unsigned p = 0; p < d; ++p) for (unsigned q = 0; q < d; ++q) a[(r[i]*d+p)*N + c[j]*d+q] += e[((i*nc+j)*d+p)*d+q];
  same(dense(A), a, "element matrix is added at its place");
}
static const unsigned vc_nodes[5][3] = {{0,1,2}, {2,1,0}, {1,3,2}, {3,0,1}, {2,0,3}};
template<int d> static void merge_fixed(M &A, U &buffer, const unsigned *r, const unsigned *c) { D e[3][3][d][d]; vc_reals(&e[0][0][0][0], 9*d*d, "e"); const V a = dense(A); ENSURES_L("assembled", (d2::Merge<3,3,d,d,D>(A, r, c, e, buffer))); scattered(A, a, 3, r, 3, c, &e[0][0][0][0]); for (unsigned b : buffer) ENSURES_L("buffer is left clean", b == UINT_MAX); }
VC(merge_blocks) { M A; const unsigned d = 1 + vc_choose(3); pattern(A, 4, d, 4095, vc_choose(2)); values(A); U buffer; if (vc_choose(2)) buffer.assign(4, UINT_MAX); const unsigned *r = vc_nodes[vc_choose(5)]; if (d == 1) merge_fixed<1>(A, buffer, r, r); else if (d == 2) merge_fixed<2>(A, buffer, r, r); else merge_fixed<3>(A, buffer, r, r); }
VC(merge_rows_columns) { M A; pattern(A, 4, 2, 4095, false); values(A); U buffer; merge_fixed<2>(A, buffer, vc_nodes[vc_choose(5)], vc_nodes[vc_choose(5)]); }
VC(merge_rectangular) { M A; pattern(A, 4, 2, 4095, false); values(A); U buffer; const unsigned r[2] = {1, 3}, *c = vc_nodes[vc_choose(5)]; D e[2][3][2][2]; vc_reals(&e[0][0][0][0], 24, "e"); const V a = dense(A); ENSURES_L("assembled", (d2::Merge<2,3,2,2,D>(A, r, c, e, buffer))); scattered(A, a, 2, r, 3, c, &e[0][0][0][0]); }
VC(merge_two_elements) { // two elements that share an edge, same buffer, pattern of the mesh only (0 and 3 are not connected)
  M A; pattern(A, 4, 2, 0xfff & ~0x204u, vc_choose(2)); ENSURES_L("no block between 0 and 3", !stored(A, 0, 3) && !stored(A, 3, 0)); values(A); U buffer; const unsigned t0[3] = {0,1,2}, t1[3] = {2,1,3}; merge_fixed<2>(A, buffer, t0, t0); merge_fixed<2>(A, buffer, t1, t1); }
VC(merge_scalar) { M A; pattern(A, 4, 1, 4095, vc_choose(2)); values(A); U buffer; if (vc_choose(2)) buffer.assign(4, UINT_MAX); const unsigned *r = vc_nodes[vc_choose(5)], *c = vc_choose(2) ? r : vc_nodes[vc_choose(5)]; D e[3][3]; vc_reals(&e[0][0], 9, "e"); const V a = dense(A); ENSURES_L("assembled", (d2::Merge<3,3,D>(A, r, c, e, buffer))); scattered(A, a, 3, r, 3, c, &e[0][0]); for (unsigned b : buffer) ENSURES_L("buffer is left clean", b == UINT_MAX || b == 0); }
VC(mearge) { M A; const unsigned d = 1 + vc_choose(3); pattern(A, 4, d, 4095, vc_choose(2)); values(A); U buffer; const unsigned *r = vc_nodes[vc_choose(5)], *c = vc_choose(2) ? r : vc_nodes[vc_choose(5)]; V e(9*d*d); vc_reals(e.data(), 9*d*d, "e"); const V a = dense(A); ENSURES_L("assembled", d2::Mearge(A, 3, r, 3, c, d*d, e.data(), buffer)); scattered(A, a, 3, r, 3, c, e.data()); }

// boundary conditions: fixed rows and columns are those of the identity
VC(fixed_bc) { M A; const unsigned d = 1 + vc_choose(2), N = 3*d; pattern(A, 3, d, d == 1 ? vc_choose(64) : 63 - 9*vc_choose(3), vc_choose(2)); values(A); V a = dense(A); std::vector<int> f(N); for (int &x : f) x = vc_choose(2) ? (d == 1 ? 2 : 1) : 0; A.SetFixedBC(f.data());
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) if (f[i] || f[j]) a[i*N+j] = (i == j); same(dense(A), a, "fixed rows and columns are those of the identity"); }
VC(fixed_bc_parts) { M A; const unsigned N = 6; pattern(A, 3, 2, 63 - 5*vc_choose(4), false); values(A); V a = dense(A); std::vector<int> f(N); for (int &x : f) x = vc_choose(2); const D v = vc_real("v"); const unsigned w = vc_choose(3); if (w == 0) A.SetFixedBC_Dia(f.data(), v); else if (w == 1) A.SetFixedBC_Row(f.data()); else A.SetFixedBC_Col(f.data());
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) { const bool blk = i/2 == j/2; if (w == 0 && blk && (f[i] || f[j])) a[i*N+j] = i == j ? v : 0; if (w == 1 && !blk && f[i]) a[i*N+j] = 0; if (w == 2 && !blk && f[j]) a[i*N+j] = 0; } same(dense(A), a, "only the named part is fixed"); }
VC(add_diagonal) { M A; const unsigned d = 1 + vc_choose(3), N = 3*d; pattern(A, 3, d, 63 - 9*vc_choose(3), false); values(A); V a = dense(A); const D e = vc_real("e"); A.AddDia(e); for (unsigned i = 0; i < N; ++i) a[i*N+i] += e; same(dense(A), a, "e I is added");
  D m[3]; HAVOC(m); A.AddDia_LumpedMass(m, e); for (unsigned i = 0; i < N; ++i) a[i*N+i] += e*m[i/d]; same(dense(A), a, "scaled lumped mass is added"); }
VC(scaling) { M A; const unsigned d = 1 + vc_choose(3), N = 3*d; pattern(A, 3, d, d == 1 ? vc_choose(64) : 63 - 9*vc_choose(3), vc_choose(2)); values(A); V a = dense(A), s(N); vc_reals(s.data(), N, "s"); const bool blk = vc_choose(2); if (blk) d2::MatSparse_ScaleBlk_LeftRight(A, s.data()); else d2::MatSparse_ScaleBlkLen_LeftRight(A, s.data());
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) a[i*N+j] *= blk ? s[i/d]*s[j/d] : s[i]*s[j]; same(dense(A), a, "S A S"); }
VC(symmetry) { M A; const unsigned d = 1 + vc_choose(3), N = 3*d; pattern(A, 3, d, vc_choose(64), vc_choose(2)); values(A); const V a = dense(A); const D c = d2::CheckSymmetry(A); D s = 0; // every stored block against its counterpart
  for (unsigned i = 0; i < N; ++i) for (unsigned j = 0; j < N; ++j) if (stored(A, i/d, j/d)) s += (a[i*N+j] - a[j*N+i])*(a[i*N+j] - a[j*N+i]); ENSURES_EQ_L("squared asymmetry", c, s); }

// master-slave: u = P v gives P^T A P and P^T b; a slave keeps a unit diagonal
static void masterslave(unsigned n, unsigned d, unsigned mask, const U &f) {
  M A0; pattern(A0, n, d, mask, vc_choose(2)); const unsigned N = n*d; U ind, arr; d2::JArray_AddMasterSlavePattern(ind, arr, f.data(), d, A0.col_ind_.data(), A0.col_ind_.size(), A0.row_ptr_.data());
  ENSURES_L("index covers the rows", ind.size() == n+1 && ind[0] == 0 && ind[n] == arr.size()); for (unsigned i = 0; i < n; ++i) { ENSURES_L("index increases", ind[i] <= ind[i+1]); for (unsigned k = ind[i]; k < ind[i+1]; ++k) { ENSURES_L("valid column", arr[k] < n && arr[k] != i); for (unsigned l = ind[i]; l < k; ++l) ENSURES_L("column once", arr[l] != arr[k]); } }
  M A; A.Initialize(n, d, true); A.SetPattern(ind.data(), ind.size(), arr.data(), arr.size()); for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (stored(A0, i, j)) ENSURES_L("original pattern is kept", stored(A, i, j));
  vc_reals(A.val_dia_.data(), (int)A.val_dia_.size(), "dia"); for (unsigned i = 0; i < n; ++i) for (unsigned k = ind[i]; k < ind[i+1]; ++k) for (unsigned p = 0; p < d*d; ++p) A.val_crs_[k*d*d+p] = stored(A0, i, arr[k]) ? vc_real("crs") : 0; // assembled on the original pattern
  const V a = dense(A); V b(N); vc_reals(b.data(), N, "b"); V c = b, e(N, 0.0), r(N*N, 0.0); d2::SetMasterSlave(A, f.data()); d2::setRHS_MasterSlave(c.data(), N, f.data());
  for (unsigned i = 0; i < N; ++i) { const unsigned I = f[i] == UINT_MAX ? i : f[i]; e[I] += b[i]; for (unsigned j = 0; j < N; ++j) { const unsigned J = f[j] == UINT_MAX ? j : f[j]; r[I*N+J] += a[i*N+j]; } } for (unsigned i = 0; i < N; ++i) if (f[i] != UINT_MAX) r[i*N+i] = 1;
  same(dense(A), r, "P^T A P"); same(c, e, "P^T b");
}
VC(master_slave_chain) { // slaves of one or several masters in a chain of four points
  const unsigned k = vc_choose(6); U f(4, UINT_MAX); if (k == 0) f[3] = 0; if (k == 1) f[0] = 2; if (k == 2) { f[1] = 0; f[3] = 0; } if (k == 3) { f[0] = 3; f[1] = 2; } if (k == 4) { f[2] = 1; } if (k == 5) { f[0] = 3; f[1] = 3; f[2] = 3; } masterslave(4, 1, 0x999 /* 0-1-2-3 */, f); }
VC(master_slave_full) { const unsigned k = vc_choose(3); U f(4, UINT_MAX); if (k == 0) f[3] = 0; if (k == 1) { f[0] = 2; f[1] = 3; } if (k == 2) f[1] = f[2] = 0; masterslave(4, 1, 4095, f); }
VC(master_slave_blocks) { const unsigned k = vc_choose(4); U f(6, UINT_MAX); if (k == 0) f[4] = 0; if (k == 1) { f[4] = 0; f[5] = 1; } if (k == 2) { f[1] = 3; f[4] = 2; } if (k == 3) { f[0] = 4; f[2] = 4; } masterslave(3, 2, vc_choose(2) ? 63 : 0x2d /* 0-1-2 */, f); }
