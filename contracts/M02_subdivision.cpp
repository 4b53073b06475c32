// M02: subdivision of quad, tet and hex meshes; extrusion of triangles to tets
// @flags: -DDFM2_STATIC_LIBRARY
// @opts: prune=0
// @assume: the connectivities are enumerated (up to six quads, two tets, two hexes, two triangles in every numbering); the coordinates are arbitrary
#include <cassert>
#include <cmath>
#include <climits>
#include <vector>
#include <set>
#include "vc.h"
#include "vc_tree.h"
#include "spec.h"
#include "delfem2/mshsubdiv.h"
#include "delfem2/mshsubdiv.cpp"
#include "delfem2/msh_topology_uniform.cpp"
#include "delfem2/mshmisc.h"
#include "delfem2/mshmisc.cpp"
namespace d2 = delfem2;
using D = double; typedef std::vector<D> V; typedef std::vector<unsigned int> U;
static U quads(unsigned c) { switch (c) { case 0: return {0, 1, 2, 3}; case 1: return {1, 4, 5, 2, 3, 0, 1, 2}; case 2: return {0, 1, 4, 3, 4, 5, 2, 1, 7, 4, 3, 6}; case 3: return {0, 1, 4, 3, 2, 5, 4, 1, 8, 7, 4, 5, 6, 3, 4, 7}; default: return {0, 2, 3, 1, 4, 5, 7, 6, 0, 1, 5, 4, 2, 6, 7, 3, 0, 4, 6, 2, 1, 3, 7, 5}; } }
static const unsigned nquadpt[5] = {4, 6, 8, 9, 8};
// number of pairs (i,j) which are a side of an element; sides[k] = local numbers
static unsigned nedge(const U &e, unsigned nn, const int (*s)[2], unsigned ns, unsigned np) { std::vector<char> m(np*np, 0); unsigned n = 0; for (unsigned b = 0; b < e.size(); b += nn) for (unsigned k = 0; k < ns; ++k) { unsigned i = e[b+s[k][0]], j = e[b+s[k][1]]; if (i > j) { const unsigned t = i; i = j; j = t; } n += !m[i*np+j]; m[i*np+j] = 1; } return n; }
static const int equad[4][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}}, etet[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}, ehex[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
VC(subdiv_quad) { const unsigned c = vc_choose(5); const U q = quads(c); const unsigned nq = (unsigned)q.size()/4, np = nquadpt[c]; U q1(3, 9), pi(2, 7), ps(5, 1), ef(7, 2); d2::SubdivTopo_MeshQuad(q1, pi, ps, ef, q.data(), nq, np); const unsigned ne = nedge(q, 4, equad, 4, np); ENSURES_L("one point per edge", ps.size() == ne); ENSURES(ef.size() == 4*ne); ENSURES(q1.size() == 16*nq); if (ps.size() != ne || q1.size() != 16*nq || ef.size() != 4*ne) return;
  V x(3*np), y(2, 1.0); vc_reals(x.data(), 3*np, "x"); d2::SubdivPoints3_MeshQuad(y, std::vector<int>(ef.begin(), ef.end()), q, x); ENSURES(y.size() == 3*(np+ne+nq)); for (unsigned k : q1) if (k >= np+ne+nq) { ENSURES_L("points exist", false); return; }
  for (unsigned e = 0; e < nq; ++e) for (unsigned k = 0; k < 4; ++k) for (int j = 0; j < 3; ++j) { const D *X = &x[j]; auto P = [&](unsigned i) { return X[3*q[4*e+i%4]]; }; const unsigned *s = &q1[16*e+4*k]; ENSURES_EQ_L("corner", y[3*s[0]+j], P(k)); ENSURES_EQ_L("centre", y[3*s[2]+j], (P(0)+P(1)+P(2)+P(3))/4);
    ENSURES_EQ_L("mid points, same orientation", y[3*s[1]+j], (P(k)+P(k+1))/2); ENSURES_EQ_L("mid points, same orientation", y[3*s[3]+j], (P(k)+P(k+3))/2); }
  for (unsigned e = 0; e < ne; ++e) { unsigned f[2] = {UINT_MAX, UINT_MAX}, n = 0; for (unsigned b = 0; b < nq; ++b) for (unsigned k = 0; k < 4; ++k) { const unsigned i = q[4*b+k], j = q[4*b+(k+1)%4]; if ((i == ef[4*e] && j == ef[4*e+1]) || (j == ef[4*e] && i == ef[4*e+1])) { if (n < 2) f[n] = b; ++n; } } ENSURES_L("quads of the edge", n > 0 && ((ef[4*e+2] == f[0] && ef[4*e+3] == f[1]) || (ef[4*e+2] == f[1] && ef[4*e+3] == f[0] && n == 2))); } }
VC(catmull_clark) { const unsigned c = vc_choose(5); const U q = quads(c); const unsigned nq = (unsigned)q.size()/4, np = nquadpt[c]; U q1, pi, ps, ef; d2::SubdivTopo_MeshQuad(q1, pi, ps, ef, q.data(), nq, np); const unsigned ne = (unsigned)ps.size(); V x(3*np), y(2, 1.0); vc_reals(x.data(), 3*np, "x"); d2::SubdivisionPoints_QuadCatmullClark(y, q1, ef, pi, ps, q.data(), nq, x.data(), np); ENSURES(y.size() == 3*(np+ne+nq));
  for (int j = 0; j < 3; ++j) { V f(nq, 0.), sum(np, 0.); std::vector<int> n(np, 0), border(np, 0); for (unsigned e = 0; e < nq; ++e) { for (unsigned k = 0; k < 4; ++k) f[e] += x[3*q[4*e+k]+j]/4; ENSURES_EQ_L("face point", y[3*(np+ne+e)+j], f[e]); for (unsigned k = 0; k < 4; ++k) { ++n[q[4*e+k]]; sum[q[4*e+k]] += f[e]; } }
    for (unsigned e = 0; e < ne; ++e) { const unsigned a = ef[4*e], b = ef[4*e+1], s = ef[4*e+2], t = ef[4*e+3]; const D m = x[3*a+j]+x[3*b+j]; sum[a] += m; sum[b] += m; if (t == UINT_MAX) { border[a] = border[b] = 1; ENSURES_EQ_L("mid point on the border", y[3*(np+e)+j], m/2); } else ENSURES_EQ_L("edge point", y[3*(np+e)+j], (m+f[s]+f[t])/4); }
    for (unsigned p = 0; p < np; ++p) if (border[p]) ENSURES_EQ_L("points of the border stay", y[3*p+j], x[3*p+j]); else ENSURES_EQ_L("vertex point", y[3*p+j]*n[p]*n[p], sum[p]+n[p]*(n[p]-3)*x[3*p+j]); } }
static D det(const D *a, const D *b, const D *c, const D *d) { D u[3], v[3], w[3]; for (int k = 0; k < 3; ++k) { u[k] = b[k]-a[k]; v[k] = c[k]-a[k]; w[k] = d[k]-a[k]; } return u[0]*(v[1]*w[2]-v[2]*w[1])+u[1]*(v[2]*w[0]-v[0]*w[2])+u[2]*(v[0]*w[1]-v[1]*w[0]); }
// faces used once, twice and more often
static void faces(const U &t, unsigned n[3]) { n[0] = n[1] = n[2] = 0; U f; for (unsigned e = 0; e < t.size(); e += 4) for (unsigned k = 0; k < 4; ++k) { unsigned a = t[e+(k+1)%4], b = t[e+(k+2)%4], c = t[e+(k+3)%4], s; if (a > b) { s = a; a = b; b = s; } if (b > c) { s = b; b = c; c = s; } if (a > b) { s = a; a = b; b = s; } f.push_back((a*64+b)*64+c); } for (unsigned i = 0; i < f.size(); ++i) { unsigned m = 0, first = 1; for (unsigned j = 0; j < f.size(); ++j) { m += f[i] == f[j]; if (f[i] == f[j] && j < i) first = 0; } if (first) ++n[m > 3 ? 2 : m-1 > 2 ? 2 : m-1]; } }
VC(subdiv_tet) { const unsigned c = vc_choose(4); const U T[4] = {{0, 1, 2, 3}, {3, 1, 0, 2}, {0, 1, 2, 3, 4, 2, 1, 3}, {5, 3, 4, 0, 0, 3, 2, 1}}; const unsigned NP[4] = {4, 4, 5, 6}, inner[4] = {0, 0, 1, 0}; const U &t = T[c]; const unsigned nt = (unsigned)t.size()/4, np = NP[c]; U t1(3, 8), pi(2, 2), ps(1, 1); d2::SubdivTopo_MeshTet(t1, pi, ps, t.data(), (int)nt, np); ENSURES_L("one point per edge", ps.size() == nedge(t, 4, etet, 6, np)); ENSURES(t1.size() == 32*nt); const unsigned n1 = np+(unsigned)ps.size(); for (unsigned k : t1) if (k >= n1) { ENSURES_L("points exist", false); return; } if (t1.size() != 32*nt) return;
  V x(3*n1); vc_reals(x.data(), 3*np, "x"); for (unsigned i = 0; i < np; ++i) for (unsigned k = pi[i]; k < pi[i+1]; ++k) for (int j = 0; j < 3; ++j) x[3*(np+k)+j] = (x[3*i+j]+x[3*ps[k]+j])/2;
  for (unsigned e = 0; e < 8*nt; ++e) { const unsigned *s = &t1[4*e], *p = &t[4*(e/8)]; ENSURES_EQ_L("an eighth of the volume, same orientation", 8*det(&x[3*s[0]], &x[3*s[1]], &x[3*s[2]], &x[3*s[3]]), det(&x[3*p[0]], &x[3*p[1]], &x[3*p[2]], &x[3*p[3]])); } for (unsigned e = 0; e < nt; ++e) for (unsigned k = 0; k < 4; ++k) { unsigned n = 0; for (unsigned s = 0; s < 32; ++s) n += t1[32*e+s] == t[4*e+k]; ENSURES_L("one tet at each corner", n == 1); }
  unsigned n[3]; faces(t1, n); ENSURES_L("faces match", n[0] == 4*(4*nt-2*inner[c]) && n[1] == 8*nt+4*inner[c] && n[2] == 0); }
VC(subdiv_hex) { const U H[3] = {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 4, 3, 6, 7, 10, 9, 1, 2, 5, 4, 7, 8, 11, 10}, {3, 0, 1, 4, 9, 6, 7, 10, 8, 7, 10, 11, 2, 1, 4, 5}}; const unsigned NP[3] = {8, 12, 12}, c = vc_choose(3); const U &h = H[c]; const unsigned nh = (unsigned)h.size()/8, np = NP[c]; U h1(3, 8), pi(2, 2), ps(1, 1), qf(3, 1); d2::SubdivTopo_MeshHex(h1, pi, ps, qf, h.data(), nh, np); const unsigned ne = nedge(h, 8, ehex, 12, np), nf = 6*nh-(nh == 2); ENSURES_L("one point per edge", ps.size() == ne); ENSURES_L("one point per face", qf.size() == 4*nf); ENSURES(h1.size() == 64*nh); if (ps.size() != ne || qf.size() != 4*nf || h1.size() != 64*nh) return; const unsigned n1 = np+ne+nf+nh; for (unsigned k : h1) if (k >= n1) { ENSURES_L("points exist", false); return; }
  V x(3*np), y(2, 1.); vc_reals(x.data(), 3*np, "x"); d2::SubdivisionPoints_Hex(y, pi, ps, qf, h.data(), nh, x.data(), np); ENSURES(y.size() == 3*n1); const int N[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
  for (unsigned e = 0; e < nh; ++e) for (unsigned k = 0; k < 8; ++k) for (unsigned l = 0; l < 8; ++l) for (int j = 0; j < 3; ++j) { D v = 0; for (unsigned i = 0; i < 8; ++i) { int w = 1; for (int d = 0; d < 3; ++d) w *= 2+N[i][d]*(N[k][d]+N[l][d]); v += w*x[3*h[8*e+i]+j]; } ENSURES_EQ_L("octant of the hex, same order of the nodes", 64*y[3*h1[64*e+8*k+l]+j], v); } }
VC(find_edge) { const U pi = {0, 2, 4, 4, 4}, ps = {3, 1, 2, 3}; const unsigned a = vc_choose(4), b = vc_choose(4); const unsigned r = d2::findEdge(a, b, pi, ps); const unsigned i = a < b ? a : b, j = a < b ? b : a; unsigned e = UINT_MAX; for (unsigned k = pi[i]; k < pi[i+1]; ++k) if (ps[k] == j) e = k; ENSURES_L("either direction", r == e); }
VC(find_face) { const U q = {0, 1, 4, 3, 1, 2, 5, 4}, pi = {0, 1, 3, 4, 5, 7, 8}, ps = {0, 0, 1, 1, 0, 0, 1, 1}; unsigned v[4]; for (unsigned k = 0; k < 4; ++k) v[k] = vc_choose(6); for (unsigned k = 0; k < 4; ++k) for (unsigned l = 0; l < k; ++l) REQUIRES(v[k] != v[l]); int e = -1; for (int f = 0; f < 2; ++f) { unsigned n = 0; for (unsigned k = 0; k < 4; ++k) for (unsigned l = 0; l < 4; ++l) n += q[4*f+k] == v[l]; if (n == 4) e = f; } ENSURES_L("quad with these corners", d2::findFace(v[0], v[1], v[2], v[3], q, pi, ps) == e); }
VC(extrude) { // two triangles in every numbering of the points
  const unsigned nt = 1+vc_choose(2), np = nt+2; const int nl = 1+(int)vc_choose(2); unsigned p[4] = {0, 1, 2, 3}; for (unsigned k = 0; k+1 < np; ++k) { const unsigned j = k+vc_choose(np-k), s = p[k]; p[k] = p[j]; p[j] = s; } U t = {p[0], p[1], p[2]}; if (nt == 2) { const U b = {p[2], p[1], p[3]}; t.insert(t.end(), b.begin(), b.end()); } V xy(2*np), x(3, 1.); vc_reals(xy.data(), 2*np, "x"); const D h = vc_real("h"); U e(7, 1); d2::ExtrudeTri2Tet(nl, h, x, e, xy, t); ENSURES(x.size() == 3*np*(nl+1)); ENSURES(e.size() == 12*nt*nl); if (e.size() != 12*nt*nl) return; for (unsigned k : e) if (k >= np*(nl+1)) { ENSURES_L("points exist", false); return; }
  for (int l = 0; l <= nl; ++l) for (unsigned i = 0; i < np; ++i) { ENSURES_EQ_L("layers", x[3*(l*np+i)], xy[2*i]); ENSURES_EQ_L("layers", x[3*(l*np+i)+1], xy[2*i+1]); ENSURES_EQ_L("layers", x[3*(l*np+i)+2], l*h); } unsigned in = 0; for (unsigned k = 0; k < 3*nt*nl; ++k) { const unsigned *s = &e[4*k], il = k/(3*nt), it = k/3%nt; const D *a = &xy[2*t[3*it]], *b = &xy[2*t[3*it+1]], *c = &xy[2*t[3*it+2]]; ENSURES_EQ_L("a third of the prism, orientation of the triangle", det(&x[3*s[0]], &x[3*s[1]], &x[3*s[2]], &x[3*s[3]]), h*((b[0]-a[0])*(c[1]-a[1])-(b[1]-a[1])*(c[0]-a[0]))); for (unsigned j = 0; j < 4; ++j) { bool of = false; for (unsigned d = 0; d < 3; ++d) of = of || s[j]%np == t[3*it+d]; in += of && (s[j]/np == il || s[j]/np == il+1); } } ENSURES_L("inside its prism", in == 12*nt*nl);
  unsigned n[3]; faces(e, n); const unsigned nb = nt == 1 ? 3 : 4; ENSURES_L("faces match", n[2] == 0 && n[0] == 2*nt+2*nl*nb && n[0]+2*n[1] == 12*nt*nl); }
