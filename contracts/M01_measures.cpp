// M01: measures of meshes (normals, centres of gravity, masses, bounding boxes) and affine transformations of points.
// @flags: -DDFM2_STATIC_LIBRARY
// @assume: connectivities of the measures are enumerated (up to three elements that share corners in every way used); coordinates are arbitrary
#include <cassert>
#include <cmath>
#include <climits>
#include <functional>
#include <array>
#include <vector>
#include "vc.h"
#include "spec.h"
#include "delfem2/msh_normal.h"
#include "delfem2/msh_normal.cpp"
#include "delfem2/msh_center_of_gravity.h"
#include "delfem2/msh_center_of_gravity.cpp"
#include "delfem2/msh_boundingbox.h"
#include "delfem2/msh_boundingbox.cpp"
#include "delfem2/msh_affine_transformation.h"
#include "delfem2/msh_affine_transformation.cpp"
#include "delfem2/mshmisc.h"
#include "delfem2/mshmisc.cpp"
namespace d2 = delfem2;
using D = double; typedef std::vector<D> V; typedef std::vector<unsigned int> U; typedef std::vector<int> I;
static V reals(unsigned n, const char *name) { V v(n); vc_reals(v.data(), n, name); return v; }
static void normal2(const D *a, const D *b, const D *c, D n[3]) { D u[3], v[3]; for (int k = 0; k < 3; ++k) { u[k] = b[k]-a[k]; v[k] = c[k]-a[k]; } for (int k = 0; k < 3; ++k) n[k] = u[(k+1)%3]*v[(k+2)%3]-u[(k+2)%3]*v[(k+1)%3]; }
static D len(const D *n) { return std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); }
static D dot(const D *a, const D *b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }

// --- normals of the points: the unit direction of the sum of the unit normals of the faces around it
VC(normal_tri) { const U t = {0, 1, 2, 2, 1, 3}; const V x = reals(12, "x"); D n[2][3], u[2][3]; for (int e = 0; e < 2; ++e) { normal2(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]], n[e]); const D l = len(n[e]); REQUIRES_NONZERO(l); for (int k = 0; k < 3; ++k) u[e][k] = n[e][k]*(1/l); }
  D s[3]; for (int k = 0; k < 3; ++k) s[k] = u[0][k]+u[1][k]; const D ls = len(s); REQUIRES_NONZERO(ls); V r(12, 7.0); d2::Normal_MeshTri3D(r.data(), x.data(), 4, t.data(), 2);
  for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("one face", r[k], u[0][k]); ENSURES_EQ_L("one face", r[9+k], u[1][k]); ENSURES_EQ_L("two faces", r[3+k]*ls, s[k]); ENSURES_EQ_L("two faces", r[6+k], r[3+k]); } }
VC(normal_tri_of) { const U t = {3, 1, 0, 2, 0, 3}; const V x = reals(12, "x"); const unsigned e = vc_choose(2); D n[3]; normal2(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]], n); const std::array<D,3> r = d2::Normal_TriInMeshTri3(e, x.data(), t.data()); for (int k = 0; k < 3; ++k) ENSURES_EQ(r[k], n[k]); }
VC(normal_quad) { // around each corner of one quad, the normal of the triangle of the corner and its neighbours
  const V x = reals(12, "x"); const U q = {2, 0, 3, 1}; D n[4][3]; for (int c = 0; c < 4; ++c) { normal2(&x[3*q[(c+3)%4]], &x[3*q[c]], &x[3*q[(c+1)%4]], n[c]); const D l = len(n[c]); REQUIRES_NONZERO(l); for (int k = 0; k < 3; ++k) n[c][k] *= 1/l; }
  V r; d2::Normal_MeshQuad3(r, x, q); ENSURES(r.size() == 12); for (int c = 0; c < 4; ++c) for (int k = 0; k < 3; ++k) ENSURES_EQ(r[3*q[c]+k], n[c][k]); }
VC(normal_quad_shared) { const V x = reals(18, "x"); const U q = {0, 1, 2, 3, 3, 2, 4, 5}; D n[2][4][3]; for (int e = 0; e < 2; ++e) for (int c = 0; c < 4; ++c) { normal2(&x[3*q[4*e+(c+3)%4]], &x[3*q[4*e+c]], &x[3*q[4*e+(c+1)%4]], n[e][c]); const D l = len(n[e][c]); REQUIRES_NONZERO(l); for (int k = 0; k < 3; ++k) n[e][c][k] *= 1/l; }
  D s[2][3]; for (int k = 0; k < 3; ++k) { s[0][k] = n[0][2][k]+n[1][1][k]; s[1][k] = n[0][3][k]+n[1][0][k]; } const D l0 = len(s[0]), l1 = len(s[1]); REQUIRES_NONZERO(l0); REQUIRES_NONZERO(l1);
  V r(2, 1.0); d2::Normal_MeshQuad3(r, x, q); for (int k = 0; k < 3; ++k) { ENSURES_EQ(r[k], n[0][0][k]); ENSURES_EQ_L("sum over the faces", r[6+k]*l0, s[0][k]); ENSURES_EQ_L("sum over the faces", r[9+k]*l1, s[1][k]); ENSURES_EQ(r[12+k], n[1][2][k]); } }

// --- centres of gravity
VC(cg_points) { const unsigned n = 1+vc_choose(4); const V x = reals(3*n, "x"); D c[3] = {5, 5, 5}; d2::CG_Point3(c, x); for (int k = 0; k < 3; ++k) { D s = 0; for (unsigned i = 0; i < n; ++i) s += x[3*i+k]; ENSURES_EQ(c[k]*n, s); } }
VC(cg_tri) { const V x = reals(12, "x"); const I t = {1, 0, 2, 3, 1, 0}; const int e = (int)vc_choose(2); D c[3]; d2::CG_Tri(c[0], c[1], c[2], e, x, t); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centroid", c[k]*3, x[3*t[3*e]+k]+x[3*t[3*e+1]+k]+x[3*t[3*e+2]+k]); }
VC(cg_shell) { const U t = {0, 1, 2, 2, 1, 3}; const V x = reals(12, "x"); D a[2], n[3]; for (int e = 0; e < 2; ++e) { normal2(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]], n); a[e] = len(n)/2; REQUIRES_NONZERO(a[e]); } const unsigned how = vc_choose(3); REQUIRES_NONZERO(a[0]+a[1]); D w[2] = {1, 1}, c[3];
  if (how == 0) d2::CG_MeshTri3_Shell(c, x, t); else { I f = {4, 4}; if (how == 2) { f[0] = 3; w[0] = 0; } const D s = d2::CG_TriMsh3Flg_Shell(c, x, t, 4, f); ENSURES_EQ_L("area of the flagged", s, w[0]*a[0]+w[1]*a[1]); }
  for (int k = 0; k < 3; ++k) { D s = 0; for (int e = 0; e < 2; ++e) s += w[e]*a[e]*(x[3*t[3*e]+k]+x[3*t[3*e+1]+k]+x[3*t[3*e+2]+k])/3; ENSURES_EQ_L("mean weighted by area", c[k]*(w[0]*a[0]+w[1]*a[1]), s); } }
static D vol(const D *p, const D *q, const D *r, const D *s) { D n[3]; normal2(p, q, r, n); D m[3]; for (int k = 0; k < 3; ++k) m[k] = s[k]-p[k]; return dot(n, m)/6; }
VC(cg_solid_tri) { // closed surface of a tetrahedron: its centroid and not one that depends on the origin
  const V x = reals(12, "x"); const U t = {0, 2, 1, 0, 1, 3, 1, 2, 3, 2, 0, 3}; const D v = vol(&x[0], &x[3], &x[6], &x[9]); REQUIRES_NONZERO(v); D c[3]; d2::CG_MeshTri3_Solid(c, x, t); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centroid of the solid", c[k]*4, x[k]+x[3+k]+x[6+k]+x[9+k]); }
VC(cg_tet) { const V x = reals(15, "x"); const U t = {0, 1, 2, 3, 4, 2, 1, 3}; const D v0 = vol(&x[0], &x[3], &x[6], &x[9]), v1 = vol(&x[12], &x[6], &x[3], &x[9]); REQUIRES_NONZERO(v0+v1); D c[3], v = 9; d2::CG_MeshTet3(v, c, x, t); ENSURES_EQ_L("volume", v, v0+v1); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("mean weighted by volume", 4*c[k]*(v0+v1), v0*(x[k]+x[3+k]+x[6+k]+x[9+k])+v1*(x[12+k]+x[3+k]+x[6+k]+x[9+k])); }
VC(cg_line) { const V x = reals(9, "x"); const U l = {2, 0, 0, 1}; D u[3], w[3]; for (int k = 0; k < 3; ++k) { u[k] = x[6+k]-x[k]; w[k] = x[3+k]-x[k]; } const D a = len(u), b = len(w); REQUIRES_POS(a, 1e-3); REQUIRES_POS(b, 1e-3); D c[3], v; d2::CG_MeshLine3(v, c, x, l); ENSURES_EQ_L("length", v, a+b); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("mean weighted by length", 2*c[k]*(a+b), a*(x[6+k]+x[k])+b*(x[3+k]+x[k])); }
VC(cents_maxrad) { const V x = reals(12, "x"); const U t = {0, 1, 2, 3, 1, 0}; V c; const D r = d2::CentsMaxRad_MeshTri3(c, x, t); ENSURES(c.size() == 6); D prod = 1; for (int e = 0; e < 2; ++e) for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centre", 3*c[3*e+k], x[3*t[3*e]+k]+x[3*t[3*e+1]+k]+x[3*t[3*e+2]+k]);
  for (int e = 0; e < 2; ++e) for (int i = 0; i < 3; ++i) { D u[3]; for (int k = 0; k < 3; ++k) u[k] = x[3*t[3*e+i]+k]-c[3*e+k]; const D d = len(u); ENSURES_GE_L("no corner is farther", r, d); prod *= r-d; } ENSURES_EQ_L("distance of a corner", prod, 0); }

// --- lumped masses
VC(mass_tet) { const V x = reals(15, "x"); const D rho = vc_real("rho"); const U t = {0, 1, 2, 3, 4, 2, 1, 3}; const D v0 = vol(&x[0], &x[3], &x[6], &x[9]), v1 = vol(&x[12], &x[6], &x[3], &x[9]); V m(5, 3.0); d2::MassPoint_Tet3D(m.data(), rho, x.data(), 5, t.data(), 2); ENSURES_EQ(m[0], rho*v0/4); ENSURES_EQ(m[4], rho*v1/4); for (int i = 1; i < 4; ++i) ENSURES_EQ(m[i], rho*(v0+v1)/4); }
VC(mass_tri2) { const V x = reals(8, "x"); const D rho = vc_real("rho"); const U t = {0, 1, 2, 2, 1, 3}; D a[2]; for (int e = 0; e < 2; ++e) { const D *p = &x[2*t[3*e]], *q = &x[2*t[3*e+1]], *r = &x[2*t[3*e+2]]; a[e] = ((q[0]-p[0])*(r[1]-p[1])-(r[0]-p[0])*(q[1]-p[1]))/2; } V m(4, 3.0); d2::MassPoint_Tri2D(m.data(), rho, x.data(), 4, t.data(), 2); ENSURES_EQ(3*m[0], rho*a[0]); ENSURES_EQ(3*m[3], rho*a[1]); for (int i = 1; i < 3; ++i) ENSURES_EQ(3*m[i], rho*(a[0]+a[1])); }
VC(mass_tri3) { const V x = reals(12, "x"); const D rho = vc_real("rho"); const U t = {0, 1, 2, 2, 1, 3}; D a[2], n[3]; for (int e = 0; e < 2; ++e) { normal2(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]], n); a[e] = len(n)/2; } V m(4, 3.0); d2::MassPoint_Tri3D(m.data(), rho, x.data(), 4, t.data(), 2); ENSURES_EQ(3*m[0], rho*a[0]); ENSURES_EQ(3*m[3], rho*a[1]); for (int i = 1; i < 3; ++i) ENSURES_EQ(3*m[i], rho*(a[0]+a[1])); }
VC(area_flagged) { const V x = reals(12, "x"); const U t = {0, 1, 2, 2, 1, 3}; const unsigned mask = vc_choose(4); D s = 0, n[3]; for (unsigned e = 0; e < 2; ++e) { normal2(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]], n); if (mask >> e & 1) s += len(n)/2; } const std::function<bool(unsigned int)> f = [mask](unsigned int e) { return (mask >> e & 1) != 0; }; ENSURES_EQ_L("sum of the accepted", d2::Area_MeshTri3(x, t, f), s); }

// --- bounding boxes: two arbitrary points; three points that are arbitrary along one axis; and one step from an arbitrary box
static V points(unsigned &n) { n = 2; if (vc_choose(2)) return reals(6, "x"); n = 3; V x = {1, -2, 3, -1, 5, 2, 4, 6, -8}; const unsigned k = vc_choose(3); for (unsigned i = 0; i < 3; ++i) x[3*i+k] = vc_real("x"); return x; }
static void spans(D c, D w, const D *v, unsigned n) { D lo = 1, hi = 1; const D a = c-w/2, b = c+w/2; for (unsigned i = 0; i < n; ++i) { ENSURES_GE_L("contains every point", v[i], a); ENSURES_GE_L("contains every point", b, v[i]); lo *= v[i]-a; hi *= b-v[i]; } ENSURES_EQ_L("lower side through a point", lo, 0); ENSURES_EQ_L("upper side through a point", hi, 0); }
static void column(const V &x, unsigned n, int k, D *o) { for (unsigned i = 0; i < n; ++i) o[i] = x[3*i+k]; }
VC(bb_minmax) { unsigned n; const V x = points(n); D mn[3], mx[3]; d2::BoundingBox3_Points3(mn, mx, x.data(), n); for (int k = 0; k < 3; ++k) { D c[3]; column(x, n, k, c); spans((mn[k]+mx[k])/2, mx[k]-mn[k], c, n); } }
VC(bb_update) { D a[3], b[3], p[3]; HAVOC(a); HAVOC(b); HAVOC(p); const bool act = vc_choose(2); if (act) { for (int k = 0; k < 3; ++k) REQUIRES(a[k] <= b[k]); } else REQUIRES(a[0] > b[0]); D lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = a[k]; hi[k] = b[k]; } d2::updateMinMaxXYZ(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], p[0], p[1], p[2]);
  for (int k = 0; k < 3; ++k) { if (!act) { ENSURES_EQ(lo[k], p[k]); ENSURES_EQ(hi[k], p[k]); continue; } ENSURES_GE(a[k], lo[k]); ENSURES_GE(p[k], lo[k]); ENSURES_GE(hi[k], b[k]); ENSURES_GE(hi[k], p[k]); ENSURES_EQ((lo[k]-a[k])*(lo[k]-p[k]), 0); ENSURES_EQ((hi[k]-b[k])*(hi[k]-p[k]), 0); } }
VC(bb_center_width) { unsigned n; const V x = points(n); D c[3], w[3]; const unsigned how = vc_choose(3); if (how == 0) d2::CenterWidth_Point3(c[0], c[1], c[2], w[0], w[1], w[2], x.data(), n); else if (how == 1) d2::CenterWidth_Points3(c[0], c[1], c[2], w[0], w[1], w[2], x); else d2::CenterWidth_Points3(c, w, x); for (int k = 0; k < 3; ++k) { D v[3]; column(x, n, k, v); spans(c[k], w[k], v, n); } }
VC(bb_empty) { D c[3], w[3]; const V x; if (vc_choose(2)) d2::CenterWidth_Points3(c, w, x); else d2::CenterWidth_Point3(c[0], c[1], c[2], w[0], w[1], w[2], (const D *)nullptr, 0); for (int k = 0; k < 3; ++k) { ENSURES_EQ(c[k], 0); ENSURES_EQ(w[k], 1); } }
VC(bb_local) { const V x = reals(6, "x"); D e[3][3]; for (int k = 0; k < 3; ++k) vc_reals(e[k], 3, "e"); D c[3], w[3]; d2::GetCenterWidthLocal(c[0], c[1], c[2], w[0], w[1], w[2], x, e[0], e[1], e[2]); for (int k = 0; k < 3; ++k) { D v[3]; for (int i = 0; i < 2; ++i) v[i] = dot(&x[3*i], e[k]); spans(c[k], w[k], v, 2); } }
VC(bb_group) { // the corners of the elements of the group, for elements of two to four corners
  const unsigned nn = 2+vc_choose(3), g = vc_choose(3); const U e = {3, 0, 1, 4, 2, 3, 1, 2, 0, 4, 0, 2}; const unsigned ne = nn == 4 ? 2 : 3; U el(e.begin(), e.begin()+nn*ne); I grp(ne, 1); if (g == 1) grp[0] = 0; else if (g == 2) { grp[0] = grp[1] = 0; } if (nn == 4 && g == 2) return; V x = {1, -2, 3, -1, 5, 2, 4, 6, -8, 0, -7, 9, 7, 3, 5}; const unsigned axis = vc_choose(3); for (unsigned i = 0; i < 5; ++i) x[3*i+axis] = vc_real("x"); D c[3], w[3];
  if (vc_choose(2)) d2::GetCenterWidthGroup(c[0], c[1], c[2], w[0], w[1], w[2], x, el, nn, g == 0 ? 2 : g == 1 ? 0 : 1, grp); else { U ind(1, 0); for (unsigned i = 0; i < ne; ++i) ind.push_back(nn*(i+1)); D cw[6]; d2::GetCenterWidth3DGroup(cw, x, ind, el, g == 0 ? 2 : g == 1 ? 0 : 1, grp); for (int k = 0; k < 3; ++k) { c[k] = cw[k]; w[k] = cw[3+k]; } }
  if (g == 0) { for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("no element", c[k], 0); ENSURES_EQ_L("no element", w[k], 1); } return; }
  const unsigned ie = g == 1 ? 0 : ne-1; for (int k = 0; k < 3; ++k) { D v[4]; for (unsigned i = 0; i < nn; ++i) v[i] = x[3*el[ie*nn+i]+k]; spans(c[k], w[k], v, nn); } }
VC(bb_longest) { const V x = reals(6, "x"); const D l = d2::Size_Points3D_LongestAABBEdge(x); D p = 1; for (int k = 0; k < 3; ++k) { const D d = x[k]-x[3+k], s = d < 0 ? -d : d; ENSURES_GE_L("no longer side", l, s); p *= l-s; } ENSURES_EQ_L("a side", p, 0); }

// --- affine transformations of points
VC(transform_points) { const unsigned nd = 2+vc_choose(2); const V x = reals(3*nd, "x"); const D s = vc_real("s"); D t[3]; HAVOC(t); V a = x, b = x, c = x, d = x; d2::Scale_Points(a.data(), 3, nd, s); d2::Scale_PointsX(b, s); d2::Translate_Points(c.data(), 3, nd, t); if (nd == 2) d2::Translate_Points2(d, t[0], t[1]); else d2::Translate_Points3(d, t[0], t[1], t[2]);
  for (unsigned i = 0; i < 3; ++i) for (unsigned k = 0; k < nd; ++k) { const unsigned j = i*nd+k; ENSURES_EQ_L("scaled", a[j], s*x[j]); ENSURES_EQ_L("scaled", b[j], s*x[j]); ENSURES_EQ_L("translated", c[j], x[j]+t[k]); ENSURES_EQ_L("translated", d[j], x[j]+t[k]); } }
VC(transform_part) { const V x = reals(9, "x"); const D s = vc_real("s"); D t[3]; HAVOC(t); V a = x, c = x; d2::Scale_Points(a.data(), 2, 3, s); d2::Translate_Points(c.data(), 2, 3, t); for (int k = 6; k < 9; ++k) { ENSURES_EQ_L("frame", a[k], x[k]); ENSURES_EQ_L("frame", c[k], x[k]); } }
VC(rotate_points) { // rotation about x, then y, then z: an isometry that keeps the origin
  const V x = reals(6, "x"); const D rx = vc_real("rx"), ry = vc_real("ry"), rz = vc_real("rz"); V a = x; d2::Rotate_Points3(a, rx, ry, rz); for (int i = 0; i < 2; ++i) { const D *p = &x[3*i]; const D q[3] = {p[0], std::cos(rx)*p[1]-std::sin(rx)*p[2], std::sin(rx)*p[1]+std::cos(rx)*p[2]}; const D r[3] = {std::cos(ry)*q[0]+std::sin(ry)*q[2], q[1], -std::sin(ry)*q[0]+std::cos(ry)*q[2]}; const D s[3] = {std::cos(rz)*r[0]-std::sin(rz)*r[1], std::sin(rz)*r[0]+std::cos(rz)*r[1], r[2]}; for (int k = 0; k < 3; ++k) ENSURES_EQ_L("x, then y, then z", a[3*i+k], s[k]); } ENSURES_EQ_L("isometry", dot(&a[0], &a[3]), dot(&x[0], &x[3])); }
VC(normalize_points) { // similar to the input, centred, longest side as given
  const V x = reals(6, "x"); const D l = vc_real("l"); REQUIRES(l > 0); for (int k = 0; k < 3; ++k) REQUIRES(x[k] < x[3+k]); const int m = (int)vc_choose(3); for (int k = 0; k < 3; ++k) if (k != m) REQUIRES(x[3+k]-x[k] < x[3+m]-x[m]); V a = x; d2::Normalize_Points3(a, l); for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("centred", a[k], -a[3+k]); ENSURES_EQ_L("similar", (a[3+k]-a[k])*(x[3+m]-x[m]), l*(x[3+k]-x[k])); } }
VC(normalize_vectors) { const unsigned nd = 2+vc_choose(2); V x = reals(2*nd, "x"); const V y = x; D l[2]; for (unsigned i = 0; i < 2; ++i) { D s = 0; for (unsigned k = 0; k < nd; ++k) s += y[i*nd+k]*y[i*nd+k]; l[i] = std::sqrt(s); REQUIRES_NONZERO(l[i]); } d2::NormalizeVector_Points(x.data(), 2, nd); for (unsigned i = 0; i < 2; ++i) for (unsigned k = 0; k < nd; ++k) ENSURES_EQ_L("unit vector of the same direction", x[i*nd+k]*l[i], y[i*nd+k]); }
VC(tangent_vectors) { V o = reals(6, "o"); const V o0 = o, n = reals(6, "n"); for (int i = 0; i < 2; ++i) { REQUIRES(dot(&n[3*i], &n[3*i]) == 1); } D t[2][3], l[2]; for (int i = 0; i < 2; ++i) { const D on = dot(&o0[3*i], &n[3*i]); for (int k = 0; k < 3; ++k) t[i][k] = o0[3*i+k]-on*n[3*i+k]; l[i] = len(t[i]); REQUIRES_NONZERO(l[i]); } d2::TangentVector_Points3(o, n);
  for (int i = 0; i < 2; ++i) { ENSURES_EQ_L("unit", dot(&o[3*i], &o[3*i]), 1); ENSURES_EQ_L("tangent", dot(&o[3*i], &n[3*i]), 0); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("direction of the projection", o[3*i+k]*l[i], t[i][k]); } }

// --- editing and quality
VC(remove_unreferenced) { const unsigned nd = 2+vc_choose(2), c = vc_choose(4); const U es[4] = {{4, 1, 2, 2, 1, 5}, {0, 1, 2}, {5, 3, 0, 3, 5, 1}, {}}; const U e = es[c]; const V x = reals(6*nd, "x"); V y(3, 1.0); U f(2, 8); I m(1, 5); d2::RemoveUnreferencedPoints_MeshElem(y, f, m, nd, x, e); ENSURES(f.size() == e.size()); ENSURES(m.size() == 6); int n = 0; for (unsigned p = 0; p < 6; ++p) { bool used = false; for (unsigned q : e) used = used || q == p; ENSURES_L("numbered in order, unused marked", m[p] == (used ? n : -2)); if (used) ++n; } ENSURES_L("exactly the used points", y.size() == (unsigned)n*nd);
  for (unsigned i = 0; i < e.size(); ++i) { ENSURES_L("renumbered", (int)f[i] == m[e[i]]); for (unsigned k = 0; k < nd; ++k) ENSURES_EQ_L("same coordinates", y[f[i]*nd+k], x[e[i]*nd+k]); } }
VC(add_mesh) { V x = reals(6, "x"); const V x0 = x, y = reals(9, "y"); U t = {0, 1, 1}; const U s = {2, 0, 1, 1, 0, 2}; d2::AddMesh(x, t, y, s); ENSURES(x.size() == 15); ENSURES(t.size() == 9); for (int k = 0; k < 6; ++k) ENSURES_EQ(x[k], x0[k]); for (int k = 0; k < 9; ++k) ENSURES_EQ(x[6+k], y[k]); ENSURES(t[0] == 0); ENSURES(t[1] == 1); ENSURES(t[2] == 1); for (int k = 0; k < 6; ++k) ENSURES_L("shifted by the points there were", t[3+k] == s[k]+2); }
VC(quality_tri) { const V x = reals(8, "x"); const U t = {0, 1, 2, 2, 1, 3}; D a[2], q[2]; for (int e = 0; e < 2; ++e) { D l = 0; const D *p[3]; for (int k = 0; k < 3; ++k) p[k] = &x[2*t[3*e+k]]; for (int k = 0; k < 3; ++k) { const D dx = p[k][0]-p[(k+1)%3][0], dy = p[k][1]-p[(k+1)%3][1]; l += std::sqrt(dx*dx+dy*dy); } a[e] = ((p[1][0]-p[0][0])*(p[2][1]-p[0][1])-(p[2][0]-p[0][0])*(p[1][1]-p[0][1]))/2; REQUIRES_NONZERO(a[e]); q[e] = l*l/9/a[e]; }
  D m, n; d2::Quality_MeshTri2D(m, n, x.data(), t.data(), 2); ENSURES_GE_L("worst aspect", m, q[0]); ENSURES_GE_L("worst aspect", m, q[1]); ENSURES_EQ_L("of a triangle", (m-q[0])*(m-q[1]), 0); ENSURES_GE_L("smallest area", a[0], n); ENSURES_GE_L("smallest area", a[1], n); ENSURES_EQ_L("of a triangle", (n-a[0])*(n-a[1]), 0); }
VC(laplacian_smoothing) { // centre of the fan of each point in turn, weighted by area; points without triangles stay
  const I t = {0, 1, 2, 0, 2, 3}, ind = {0, 2, 2}, el = {0, 1}; (void)ind; const V x0 = reals(12, "x"); V x = x0; D a[2], n[3]; for (int e = 0; e < 2; ++e) { normal2(&x0[3*t[3*e]], &x0[3*t[3*e+1]], &x0[3*t[3*e+2]], n); a[e] = len(n)/2; } REQUIRES_NONZERO(a[0]); REQUIRES_NONZERO(a[1]); REQUIRES_NONZERO(a[0]+a[1]); const I id = {0, 2, 2, 2, 2}; d2::LaplacianSmoothing(x, t, id, el);
  for (int k = 0; k < 3; ++k) ENSURES_EQ_L("mean of the centres weighted by area", 3*x[k]*(a[0]+a[1]), a[0]*(x0[k]+x0[3+k]+x0[6+k])+a[1]*(x0[k]+x0[6+k]+x0[9+k])); for (int k = 3; k < 12; ++k) ENSURES_EQ_L("a point without triangles stays", x[k], x0[k]); }

// --- solid angles
VC(solid_angle_tri) { // sine and cosine of half the angle (van Oosterom and Strackee), in [0, 4 pi]
  D v[3][3]; for (int i = 0; i < 3; ++i) vc_reals(v[i], 3, "v"); D l[3], n[3]; for (int i = 0; i < 3; ++i) l[i] = len(v[i]); for (int k = 0; k < 3; ++k) n[k] = v[0][(k+1)%3]*v[1][(k+2)%3]-v[0][(k+2)%3]*v[1][(k+1)%3]; const D den = dot(n, v[2]); const D num = l[0]*l[1]*l[2]+dot(v[0], v[1])*l[2]+dot(v[1], v[2])*l[0]+dot(v[2], v[0])*l[1]; if (vc_choose(2)) REQUIRES(den > 1e-3); else REQUIRES(den < -1e-3);
  const D a = d2::SolidAngleTri3D(v[0], v[1], v[2]), r = sqrt(num*num+den*den); ENSURES_EQ_L("sine of the half solid angle", std::sin(a/2), den/r); ENSURES_EQ_L("cosine of the half solid angle", std::cos(a/2), num/r); ENSURES_GE_L("not negative", a, 0); ENSURES_GE_L("at most the full sphere", 4*M_PI, a); }
VC(solid_angle_mesh) { // sum over the triangles around a point of the angles between their edges and the normal of the point
  const V x = reals(12, "x"), nr = reals(12, "n"); const U t = {3, 0, 1, 1, 2, 3}; I ind = {0, 1, 3, 3, 4}, el = {0, 1, 0, 1}; V s(1, 9.0); d2::makeSolidAngle(s, x, t, nr, ind, el); ENSURES(s.size() == 4); const int o[4][2][2] = {{{1, 3}, {-1, 0}}, {{2, 3}, {3, 0}}, {{-1, 0}, {-1, 0}}, {{1, 2}, {-1, 0}}}; for (int p = 0; p < 4; ++p) { if (p == 2) { ENSURES_EQ_L("no triangle", s[2], -1); continue; } D w = 0; for (int j = 0; j < 2; ++j) if (o[p][j][0] >= 0) { D a[3], b[3]; for (int k = 0; k < 3; ++k) { a[k] = x[3*o[p][j][0]+k]-x[3*p+k]; b[k] = x[3*o[p][j][1]+k]-x[3*p+k]; } w += d2::SolidAngleTri3D(a, b, &nr[3*p]); } ENSURES_EQ_L("sum over the triangles", s[p], w); } }
VC(texture_distortion) { // isometric up to the thresholds
  const V X = reals(9, "X"), P = reals(6, "P"); const U t = {2, 0, 1}; D n[3]; normal2(&X[6], &X[0], &X[3], n); const D A = len(n)/2; REQUIRES_NONZERO(A); const D *p[3] = {&P[4], &P[0], &P[2]}, *x[3] = {&X[6], &X[0], &X[3]}; const D a = ((p[1][0]-p[0][0])*(p[2][1]-p[0][1])-(p[2][0]-p[0][0])*(p[1][1]-p[0][1]))/2; REQUIRES_NONZERO(a); D l[3], L[3]; for (int k = 0; k < 3; ++k) { const D dx = p[(k+2)%3][0]-p[(k+1)%3][0], dy = p[(k+2)%3][1]-p[(k+1)%3][1]; l[k] = std::sqrt(dx*dx+dy*dy); REQUIRES_NONZERO(l[k]); D u[3]; for (int j = 0; j < 3; ++j) u[j] = x[(k+2)%3][j]-x[(k+1)%3][j]; L[k] = len(u); REQUIRES_NONZERO(L[k]); }
  const D ta = vc_real("ta"), te = vc_real("te"); const bool bad = d2::Distortion_MappingTriangleFrom2To3Dim(ta, te, 0, t, X, P); const D sa = 0.5*(a/A+A/a); if (!bad) { ENSURES_GE_L("areas agree", ta, sa); ENSURES_GE_L("same orientation", sa, 0); for (int k = 0; k < 3; ++k) ENSURES_GE_L("lengths agree", te, 0.5*(l[k]/L[k]+L[k]/l[k])); } }
VC(texture_no_distortion) { const V X = reals(9, "X"), P = reals(6, "P"); const U t = {0, 1, 2}; D n[3]; normal2(&X[0], &X[3], &X[6], n); const D A = len(n)/2; REQUIRES_NONZERO(A); const D a = ((P[2]-P[0])*(P[5]-P[1])-(P[4]-P[0])*(P[3]-P[1]))/2; REQUIRES_NONZERO(a); const D sa = 0.5*(a/A+A/a), ta = vc_real("ta"), te = vc_real("te"); const unsigned m = vc_choose(2); D l[3], L[3]; for (int k = 0; k < 3; ++k) { const int i = (k+1)%3, j = (k+2)%3; const D dx = P[2*j]-P[2*i], dy = P[2*j+1]-P[2*i+1]; l[k] = std::sqrt(dx*dx+dy*dy); REQUIRES_NONZERO(l[k]); D u[3]; for (int q = 0; q < 3; ++q) u[q] = X[3*j+q]-X[3*i+q]; L[k] = len(u); REQUIRES_NONZERO(L[k]); }
  if (m == 0) { REQUIRES(sa >= 0); REQUIRES(sa <= ta); for (int k = 0; k < 3; ++k) REQUIRES(0.5*(l[k]/L[k]+L[k]/l[k]) <= te); ENSURES_L("accepted", !d2::Distortion_MappingTriangleFrom2To3Dim(ta, te, 0, t, X, P)); } else { REQUIRES(sa < 0); ENSURES_L("turned over", d2::Distortion_MappingTriangleFrom2To3Dim(ta, te, 0, t, X, P)); } }
