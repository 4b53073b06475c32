// quadrature tables and element tables
#include "vc.h"
#include "spec.h"
#include <cmath>
#include "delfem2/quadrature.h"
#include "delfem2/mshelm.h"
namespace d2 = delfem2;
typedef double D;
static D ipow(D x, int n) { D r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static D fact(int n) { D r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static D moment(int n) { return n % 2 ? 0 : 2.0/(n+1); } // integral of x^n over [-1,1]

VC(gauss_offsets) { for (int n = 0; n < 8; ++n) ENSURES_L("rule n has n points", d2::kNumIntegrationPoint_GaussianQuadrature[n] == unsigned(n*(n+1)/2)); }
VC(gauss) {
  const int n = 1 + (int)vc_choose(7), b = d2::kNumIntegrationPoint_GaussianQuadrature[n-1], e = d2::kNumIntegrationPoint_GaussianQuadrature[n];
  for (int i = b; i < e; ++i) { const D x = d2::kPositionWeight_GaussianQuadrature<D>[i][0], w = d2::kPositionWeight_GaussianQuadrature<D>[i][1]; ENSURES_L("point inside the interval, positive weight", x > -1 && x < 1 && w > 0); for (int j = b; j < i; ++j) ENSURES_L("distinct points", x != d2::kPositionWeight_GaussianQuadrature<D>[j][0]); }
  for (int k = 0; k < 2*n; ++k) { D s = 0; for (int i = b; i < e; ++i) s += d2::kPositionWeight_GaussianQuadrature<D>[i][1]*ipow(d2::kPositionWeight_GaussianQuadrature<D>[i][0], k); ENSURES_GE_L("exact for polynomials of degree 2n-1", 5e-14, fabs(s - moment(k))); }
}
VC(gauss_float) {
  const int n = 1 + (int)vc_choose(7), b = d2::kNumIntegrationPoint_GaussianQuadrature[n-1], e = d2::kNumIntegrationPoint_GaussianQuadrature[n];
  for (int k = 0; k < 2*n; ++k) { D s = 0; for (int i = b; i < e; ++i) s += (D)d2::kPositionWeight_GaussianQuadrature<float>[i][1]*ipow(d2::kPositionWeight_GaussianQuadrature<float>[i][0], k); ENSURES_GE_L("exact for polynomials of degree 2n-1", 2e-6, fabs(s - moment(k))); }
}
VC(kronrod) {
  const D (*K)[2] = d2::kPositionWeight_GaussKronrodQuadrature<D>;
  for (int i = 0; i < 7; ++i) ENSURES_L("the Gauss points are shared", K[i][0] == d2::kPositionWeight_GaussianQuadrature<D>[21+i][0]);
  for (int i = 0; i < 15; ++i) { ENSURES_L("point inside the interval, positive weight", K[i][0] > -1 && K[i][0] < 1 && K[i][1] > 0); for (int j = 0; j < i; ++j) ENSURES_L("distinct points", K[i][0] != K[j][0]); }
  for (int k = 0; k < 24; ++k) { D s = 0; for (int i = 0; i < 15; ++i) s += K[i][1]*ipow(K[i][0], k); ENSURES_GE_L("exact for polynomials of degree 22", 5e-14, fabs(s - moment(k))); }
}
VC(triangle_rules) {
  const int r = (int)vc_choose(3), deg[3] = {1, 2, 5}; const D (*T)[3] = d2::TriGauss<D>[r]; const int n = d2::NIntTriGauss[r];
  for (int a = 0; a <= deg[r]; ++a) for (int b = 0; a + b <= deg[r]; ++b) for (int c = 0; a + b + c <= deg[r]; ++c) {
    D s = 0; for (int i = 0; i < n; ++i) s += T[i][2]*ipow(T[i][0], a)*ipow(T[i][1], b)*ipow(1-T[i][0]-T[i][1], c);
    ENSURES_GE_L("exact for monomials up to the order of the rule", 1e-9, fabs(s - 2*fact(a)*fact(b)*fact(c)/fact(a+b+c+2)));
  }
  for (int i = 0; i < n; ++i) ENSURES_L("points inside the triangle", T[i][0] > 0 && T[i][1] > 0 && T[i][0]+T[i][1] < 1 && T[i][2] > 0);
}
VC(tetrahedron_rules) {
  const int r = (int)vc_choose(4), deg[4] = {1, 2, 3, 4}; const D (*T)[4] = d2::TetGauss<D>[r]; const int n = d2::NIntTetGauss[r];
  for (int a = 0; a <= deg[r]; ++a) for (int b = 0; a + b <= deg[r]; ++b) for (int c = 0; a + b + c <= deg[r]; ++c) for (int d = 0; a + b + c + d <= deg[r]; ++d) {
    D s = 0; for (int i = 0; i < n; ++i) s += T[i][3]*ipow(T[i][0], a)*ipow(T[i][1], b)*ipow(T[i][2], c)*ipow(1-T[i][0]-T[i][1]-T[i][2], d);
    ENSURES_GE_L("exact for monomials up to the order of the rule", 1e-14, fabs(s - 6*fact(a)*fact(b)*fact(c)*fact(d)/fact(a+b+c+d+3)));
  }
  for (int i = 0; i < n; ++i) ENSURES_L("points inside the tetrahedron", T[i][0] > 0 && T[i][1] > 0 && T[i][2] > 0 && T[i][0]+T[i][1]+T[i][2] < 1);
}

// --- element tables
static const d2::MESHELEM_TYPE kType[8] = {d2::MESHELEM_TRI, d2::MESHELEM_TET, d2::MESHELEM_QUAD, d2::MESHELEM_HEX, d2::MESHELEM_PYRAMID, d2::MESHELEM_WEDGE, d2::MESHELEM_VOX, d2::MESHELEM_LINE};
VC(element_nodes) { const int nn[8] = {3, 4, 4, 8, 5, 6, 8, 2}, nf[8] = {3, 4, 4, 6, 5, 5, 6, 2}; const unsigned k = vc_choose(8); ENSURES_L("number of nodes", d2::nNodeElem(kType[k]) == nn[k]); ENSURES_L("number of faces", d2::nFaceElem(kType[k]) == nf[k]); }
VC(element_faces_planar) { // the boundary of a polygon is the cycle of its edges
  const unsigned k = vc_choose(2); const d2::MESHELEM_TYPE t = k ? d2::MESHELEM_QUAD : d2::MESHELEM_TRI; const int n = 3 + k; const int (*f)[4] = d2::noelElemFace(t); int seen[4] = {};
  for (int i = 0; i < n; ++i) { ENSURES_L("two nodes", d2::nNodeElemFace(t, i) == 2); const int a = f[i][0], b = f[i][1]; ENSURES_L("nodes in range", a >= 0 && a < n && b >= 0 && b < n); ENSURES_L("edges follow the orientation", b == (a+1)%n); ++seen[a]; if (n == 3) ENSURES_L("edge opposite to its vertex", a != i && b != i); }
  for (int i = 0; i < n; ++i) ENSURES_L("every edge once", seen[i] == 1);
}
static const int kXyz[5][8][3] = { // reference coordinates: tet, hex, pyramid, wedge, vox
  {{0,0,0},{1,0,0},{0,1,0},{0,0,1}},
  {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}},
  {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,1}},
  {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,0,1},{0,1,1}},
  {{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0,0,1},{1,0,1},{0,1,1},{1,1,1}}};
static const d2::MESHELEM_TYPE kSolid[5] = {d2::MESHELEM_TET, d2::MESHELEM_HEX, d2::MESHELEM_PYRAMID, d2::MESHELEM_WEDGE, d2::MESHELEM_VOX};
VC(element_faces_solid) {
  const unsigned k = vc_choose(5); const d2::MESHELEM_TYPE t = kSolid[k]; const int n = d2::nNodeElem(t), nf = d2::nFaceElem(t); const int (*f)[4] = d2::noelElemFace(t), (*X)[3] = kXyz[k]; int cnt[8][8] = {}; D vol = 0, cx[3] = {}; for (int i = 0; i < n; ++i) for (int d = 0; d < 3; ++d) cx[d] += (D)X[i][d]/n;
  for (int i = 0; i < nf; ++i) { const int m = d2::nNodeElemFace(t, i); ENSURES_L("three or four nodes", m == 3 || m == 4); for (int j = 0; j < m; ++j) { const int a = f[i][j], b = f[i][(j+1)%m]; ENSURES_L("nodes in range", a >= 0 && a < n && a != b); ++cnt[a][b]; }
    for (int j = 1; j + 1 < m; ++j) { D p[3][3]; const int q[3] = {f[i][0], f[i][j], f[i][j+1]}; for (int a = 0; a < 3; ++a) for (int d = 0; d < 3; ++d) p[a][d] = X[q[a]][d] - cx[d];
      const D v = p[0][0]*(p[1][1]*p[2][2]-p[1][2]*p[2][1]) + p[0][1]*(p[1][2]*p[2][0]-p[1][0]*p[2][2]) + p[0][2]*(p[1][0]*p[2][1]-p[1][1]*p[2][0]); ENSURES_L("faces of one orientation", k == 3 || k == 2 ? v != 0 : v > 0); vol += v; } }
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) ENSURES_L("the faces close the surface: every edge once in each direction", cnt[a][b] == cnt[b][a] && cnt[a][b] <= 1);
}
VC(element_edges) { // the edges are the edges of the faces, each once
const int ne[8] = {3, 6, 4, 12, 8, 9, 12, 1}; const unsigned k = vc_choose(8); const d2::MESHELEM_TYPE t = kType[k]; const int (*e)[2] = d2::noelElemEdge(t), (*f)[4] = d2::noelElemFace(t); int c[8][8] = {};
  ENSURES_L("number of edges", d2::mapMeshElemType2NEdgeElem[t] == ne[k]);
  for (int i = 0; i < d2::nFaceElem(t); ++i) { const int m = d2::nNodeElemFace(t, i); if (m == 1) c[0][1] = c[1][0] = 1; else for (int j = 0; j < m; ++j) { c[f[i][j]][f[i][(j+1)%m]] = 1; c[f[i][(j+1)%m]][f[i][j]] = 1; } }
  for (int i = 0; i < ne[k]; ++i) { ENSURES_L("edge of a face, not listed twice", c[e[i][0]][e[i][1]] == 1); c[e[i][0]][e[i][1]] = c[e[i][1]][e[i][0]] = 2; }
  for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) ENSURES_L("every edge listed", c[a][b] != 1);
}
