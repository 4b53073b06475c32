// eigenvalues of symmetric matrices by Jacobi rotations, singular values and polar factors
// @stub: singular_values,singular_values_reflection,singular_values_degenerate,singular_values_rank_one,singular_values_zero,singular_values_diagonal,polar_rotation /9EigenSym3EPdS/ stub_eigen
// @assume: Svd3 and GetRotPolarDecomp are checked against the contract of a converged EigenSym3 (rotation, V diag(l) V' = M); how fast the Jacobi iteration converges is not proved
#include "vc.h"
#include "spec.h"
#include "delfem2/svd3.h"
namespace d2 = delfem2;
typedef double D;
static void sym(D *M, const D *s) { const D m[9] = {s[0],s[5],s[4], s[5],s[1],s[3], s[4],s[3],s[2]}; for (int i = 0; i < 9; ++i) M[i] = m[i]; }
static void rotation(const D *R, const char *l) { vc_orthonormal<3>(R, l); ENSURES_EQ_L("right-handed", spec::det3(R), 1); }
// the iteration is a similarity by a rotation, and each step annihilates the largest off-diagonal entry
static void jacobi(int n) {
  D s[6], u[9], l[3], M[9], t[9], r[9]; vc_reals(s, 6, "s"); REQUIRES_POS(s[0]*s[0]+s[1]*s[1]+s[2]*s[2]+s[3]*s[3]+s[4]*s[4]+s[5]*s[5], 1e-2); sym(M, s);
  if (n > 0) { REQUIRES((s[3]+0.01*s[4])*(s[3]+0.01*s[4]) + (s[2]-s[1])*(s[2]-s[1]) > 1e-3); const D e[3] = {std::fabs(s[3]), std::fabs(s[4]), std::fabs(s[5])}; REQUIRES(std::fabs(e[0]-e[1]) > 1e-3); REQUIRES(std::fabs(e[1]-e[2]) > 1e-3); REQUIRES(std::fabs(e[0]-e[2]) > 1e-3); }
  const bool ok = d2::EigenSym3(u, l, s, n); ENSURES(ok); rotation(u, "the columns are orthonormal");
  spec::mtm<3>(t, u, M); spec::mm<3>(r, t, u); // u' M u
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("the eigenvalues are the diagonal of the rotated matrix", l[i], r[i*4]);
  if (n == 1) { const D e[3] = {std::fabs(s[3]), std::fabs(s[4]), std::fabs(s[5])}; const D off[3] = {r[5], r[2], r[1]}; for (int k = 0; k < 3; ++k) if (e[k] > e[(k+1)%3] && e[k] > e[(k+2)%3]) ENSURES_EQ_L("the largest entry is annihilated", off[k], 0); }
}
VC(jacobi_start) { jacobi(0); }
VC(jacobi_step) { jacobi(1); }
VC(jacobi_plane) { // one rotation is enough if a single entry is off the diagonal
  D s[6] = {0}, u[9], l[3], M[9], t[9], r[9]; vc_reals(s, 3, "s"); const unsigned k = vc_choose(3); s[3+k] = vc_real("off"); REQUIRES(s[3+k] > 1e-2 || s[3+k] < -1e-2); const int n = 1;
  ENSURES(d2::EigenSym3(u, l, s, n)); rotation(u, "the columns are orthonormal"); sym(M, s); const D L[9] = {l[0],0,0, 0,l[1],0, 0,0,l[2]}; spec::mm<3>(t, u, L); spec::mmt<3>(r, t, u); vc_same<9>(r, M, "M = U diag(l) U'"); }
VC(jacobi_zero) { D s[6], u[9], l[3]; ZEROS(s); ENSURES_L("the zero matrix is refused", !d2::EigenSym3(u, l, s, 3)); for (int i = 0; i < 9; ++i) ENSURES_EQ(u[i], i%4 == 0); for (int i = 0; i < 3; ++i) ENSURES_EQ(l[i], 0); }

static D vc_V0[9], vc_l0[3], vc_M0[9];
extern "C" bool stub_eigen(D *u, D *l, const D *s, int) { D M[9]; sym(M, s); vc_same<9>(M, vc_M0, "eigenvalues of the product of the transposed with the matrix"); for (int i = 0; i < 9; ++i) u[i] = vc_V0[i]; for (int i = 0; i < 3; ++i) l[i] = vc_l0[i]; return true; }
struct F { D U[9], V[9], g[3], m[9]; }; // m = U diag(g) V', U any rotation, V a permutation of the axes, g0 > g1 > |g2|
static void given(F &f, unsigned rank, D sign) {
  const unsigned P[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; const unsigned ip = vc_choose(6), *p = P[ip], *o = P[(ip+1+3*vc_choose(2))%6]; D a[4], q[4]; vc_reals(a, 4, "qu"); REQUIRES_POS(spec::dot<4>(a, a), 1e-2); spec::unit4(q, a); spec::qmat(f.U, q);
  const D g0 = vc_real("g0"), g1 = vc_real("g1"), g2 = vc_real("g2"); REQUIRES(g0 > 0.2); REQUIRES(g1 > 0.2); REQUIRES(g2 > 0.1); REQUIRES(g0*g0 > g1*g1); REQUIRES(g1*g1 > g2*g2); REQUIRES(g0*g0 > g2*g2); REQUIRES(g0 > g1); REQUIRES(g1 > g2); f.g[0] = g0; f.g[1] = rank > 1 ? g1 : 0; f.g[2] = rank > 2 ? sign*g2 : 0; ZEROS(f.V); ZEROS(vc_M0); ZEROS(vc_V0);
  for (unsigned k = 0; k < 3; ++k) { f.V[p[k]*3+k] = 1; vc_M0[p[k]*4] = f.g[k]*f.g[k]; for (unsigned i = 0; i < 3; ++i) f.m[i*3+p[k]] = k < rank ? f.U[i*3+k]*f.g[k] : 0; }
  for (unsigned k = 0; k < 3; ++k) { vc_l0[k] = f.g[o[k]]*f.g[o[k]]; vc_V0[p[o[k]]*3+k] = 1; } // the eigenvectors come in any order
  D w[3][3]; for (unsigned k = 0; k < 3; ++k) for (unsigned i = 0; i < 3; ++i) w[k][i] = f.m[i*3+p[k]];
  // ghost facts: the columns are longer than the thresholds and keep their orientation
  for (unsigned k = 0; k < rank && k < 2; ++k) REQUIRES(w[k][0]*w[k][0]+w[k][1]*w[k][1]+w[k][2]*w[k][2] > 1e-3);
  if (rank == 3) { for (unsigned k = 0; k < 2; ++k) { const D len = std::sqrt(w[k][0]*w[k][0]+w[k][1]*w[k][1]+w[k][2]*w[k][2]); for (unsigned i = 0; i < 3; ++i) w[k][i] /= len; } const D d = w[0][0]*w[1][0]+w[0][1]*w[1][1]+w[0][2]*w[1][2]; for (unsigned i = 0; i < 3; ++i) w[1][i] -= d*w[0][i]; const D len = std::sqrt(w[1][0]*w[1][0]+w[1][1]*w[1][1]+w[1][2]*w[1][2]); for (unsigned i = 0; i < 3; ++i) w[1][i] /= len;
    const D c[3] = {w[0][1]*w[1][2]-w[1][1]*w[0][2], w[0][2]*w[1][0]-w[1][2]*w[0][0], w[0][0]*w[1][1]-w[1][0]*w[0][1]}, t = w[2][0]*c[0]+w[2][1]*c[1]+w[2][2]*c[2]; if (sign > 0) REQUIRES(t > 0); else REQUIRES(t < 0); }
}
static void decomposed(const F &f) {
  D U[9] = {0}, G[3], V[9], t[9], r[9]; d2::Svd3(U, G, V, f.m, 20); rotation(U, "U is a rotation"); rotation(V, "V is a rotation"); const D L[9] = {G[0],0,0, 0,G[1],0, 0,0,G[2]}; spec::mm<3>(t, U, L); spec::mmt<3>(r, t, V); vc_same<9>(r, f.m, "m = U diag(G) V'");
  for (int k = 0; k < 2; ++k) ENSURES_EQ_L("singular values, sorted", G[k], f.g[k]);
}
VC(singular_values) { F f; given(f, 3, 1); decomposed(f); }
VC(singular_values_reflection) { F f; given(f, 3, -1); decomposed(f); }
VC(singular_values_degenerate) { F f; given(f, 2, 1); decomposed(f); }
VC(singular_values_rank_one) { F f; given(f, 1, 1); decomposed(f); }
VC(singular_values_zero) { D m[9], U[9] = {0}, G[3], V[9]; ZEROS(m); ZEROS(vc_M0); ZEROS(vc_l0); ZEROS(vc_V0); vc_V0[0] = vc_V0[4] = vc_V0[8] = 1; d2::Svd3(U, G, V, m, 20); rotation(U, "U is a rotation"); rotation(V, "V is a rotation"); for (int i = 0; i < 3; ++i) ENSURES_EQ(G[i], 0); }
VC(polar_rotation) { F f; given(f, 3, 1); D R[9], w[9]; d2::GetRotPolarDecomp(R, f.m, 20); rotation(R, "proper rotation"); D S[9]; spec::mtm<3>(S, R, f.m); for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) ENSURES_EQ_L("the stretch is symmetric", S[i*3+j], S[j*3+i]); (void)w; }
VC(singular_values_diagonal) { // one column along a diagonal of the cube, a face diagonal or an axis
  const unsigned k = vc_choose(3), z = vc_choose(7)+1, sg = vc_choose(8); const D g = vc_real("g"); REQUIRES(g > 0.2); D m[9], V[9], G[3], U[9] = {0}, t[9], r[9]; ZEROS(m); ZEROS(vc_M0); ZEROS(vc_V0); ZEROS(vc_l0); D n = 0; for (unsigned i = 0; i < 3; ++i) if (z >> i & 1) { m[i*3+k] = sg >> i & 1 ? -g : g; n += g*g; }
  vc_M0[k*4] = n; vc_l0[0] = n; for (unsigned j = 0; j < 3; ++j) vc_V0[(k+j)%3*3+j] = 1; d2::Svd3(U, G, V, m, 20); rotation(U, "U is a rotation"); rotation(V, "V is a rotation"); const D L[9] = {G[0],0,0, 0,G[1],0, 0,0,G[2]}; spec::mm<3>(t, U, L); spec::mmt<3>(r, t, V); vc_same<9>(r, m, "m = U diag(G) V'"); }
