// dynamic triangle meshes in the plane: constrained edges, insertion, deletion, smoothing, export, meshing of polygons
// @flags: -DDFM2_STATIC_LIBRARY
// @opts: prune=0
// @opts_for: across_edge_closed,across_edge_open,enforce_edge_quad,enforce_edge_two,add_point_inside,super_triangle,minmax,refinement_plan,inverse_mass,laplacian prune=2
// @bounded: mesh_polygon_run
// @assume: patches are enumerated: discs and closed surfaces of up to twelve triangles; the coordinates are symbolic
#include <cassert>
#include <cmath>
#include <climits>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <stack>
#include <algorithm>
#include <iostream>
#include "vc.h"
#include "vc_tree.h"
#include "delfem2/vec2.h"
#include "delfem2/vec2.cpp"
#include "delfem2/geo_polygon2.h"
#include "delfem2/geo_polygon2.cpp"
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri_topology.cpp"
#include "dtri.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri2_v2dtri.cpp"
typedef double D; typedef d2::CVec2d V; typedef std::vector<V> VV;
static V rv() { const D x = vc_real("x"), y = vc_real("y"); return V(x, y); }
static D cr(const V &a, const V &b) { return a.p[0]*b.p[1] - a.p[1]*b.p[0]; }
static D area2(const V &a, const V &b, const V &c) { return cr(b-a, c-a); }
static VV points(const M &m) { VV x; for (unsigned i = 0; i < m.p.size(); ++i) x.push_back(rv()); return x; }
static void eqv(const V &a, const V &b, const char *l) { vc_eq_(a.p[0], b.p[0], l); vc_eq_(a.p[1], b.p[1], l); }
// --- the edge opposite to a point that the way to a target crosses
static void across_edge(unsigned n, bool closed, unsigned start) { // a fan of n triangles around point 0 at the origin
  U e; const unsigned nr = closed ? n : n+1; for (unsigned k = 0; k < n; ++k) { e.push_back(0); e.push_back(1+k); e.push_back(1+(k+1)%nr); } e.push_back(1); e.push_back(nr+1); e.push_back(nr+2); const unsigned extra = closed ? 0 : 3; e.resize(3*n); (void)extra;
  M m; d2::InitializeMesh(m.p, m.t, e.data(), n, nr+2); m.p[0].e = start; m.p[0].d = 0; VV x(nr+2); const V o = rv(); x[0] = o; std::vector<V> r(nr); for (unsigned k = 0; k < nr; ++k) { r[k] = rv(); x[1+k] = o + r[k]; } for (unsigned k = 0; k < n; ++k) REQUIRES(cr(r[k], r[(k+1)%nr]) > 1e-3);
  const unsigned c = vc_choose(n); const D s = vc_real("s"), t = vc_real("t"); REQUIRES(s > 1e-3); REQUIRES(t > 1e-3); const V q = s*r[c] + t*r[(c+1)%nr]; x[nr+1] = o + q; for (unsigned k = 0; k < nr; ++k) { const D d = cr(r[k], q); if (vc_choose(2)) REQUIRES(d > 1e-6); else REQUIRES(d < -1e-6); }
  unsigned i = 9, a = 9, b = 9; D ratio = -1; ENSURES_L("found", d2::dtri2::FindEdgePoint_AcrossEdge(i, a, b, ratio, 0, nr+1, m.p, m.t, x)); ENSURES_L("a triangle of the point", i < n && a < 3 && b < 3 && m.t[i].v[(b+1)%3] == 0 && (a+1)%3 == b); const V p = x[m.t[i].v[a]], w = x[m.t[i].v[b]]; ENSURES_GE_L("the target lies in the wedge", cr(p-o, q), 0); ENSURES_GE_L("the target lies in the wedge", cr(q, w-o), 0); ENSURES_EQ_L("where the way crosses the edge", cr((1-ratio)*(p-o) + ratio*(w-o), q), 0); ENSURES_GE_L("inside the edge", ratio, 0); ENSURES_GE_L("inside the edge", 1, ratio);
}
VC(across_edge_closed) { across_edge(3, true, vc_choose(3)); }
VC(across_edge_open) { const unsigned n = 1 + vc_choose(3); across_edge(n, false, vc_choose(n)); }
// --- forcing an edge into the mesh
static void border_edge(const M &m, unsigned a, unsigned b) { unsigned n = 0; for (auto &t : m.t) for (unsigned k = 0; k < 3; ++k) if ((t.v[(k+1)%3] == a && t.v[(k+2)%3] == b) || (t.v[(k+1)%3] == b && t.v[(k+2)%3] == a)) { ++n; ENSURES_L("separated along the edge", t.s2[k] == NONE); } ENSURES_L("the edge has both its triangles", n == 2); }
static void rejoin(M &m, unsigned a, unsigned b) { for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned j = 0; j < m.t.size(); ++j) for (unsigned k = 0; k < 3; ++k) for (unsigned l = 0; l < 3; ++l) if (m.t[i].v[(k+1)%3] == a && m.t[i].v[(k+2)%3] == b && m.t[j].v[(l+1)%3] == b && m.t[j].v[(l+2)%3] == a) { m.t[i].s2[k] = j; m.t[j].s2[l] = i; } }
VC(enforce_edge_present) { M m = build(2 + vc_choose(7), vc_choose(3)); const S w = tris(m); const VV x = points(m); std::vector<unsigned> ea, eb; for (auto &t : m.t) for (unsigned k = 0; k < 3; ++k) if (t.s2[k] != NONE) { ea.push_back(t.v[(k+1)%3]); eb.push_back(t.v[(k+2)%3]); } const unsigned c = vc_choose((unsigned)ea.size()); d2::EnforceEdge(m.p, m.t, ea[c], eb[c], x); same(m, w, "no triangle changes"); border_edge(m, ea[c], eb[c]); rejoin(m, ea[c], eb[c]); valid(m); }
VC(enforce_edge_quad) { // the edge crosses one edge
  const unsigned l[6] = {0,1,2, 0,2,3}; U e; const unsigned r = vc_choose(3), s = vc_choose(3); for (unsigned k = 0; k < 3; ++k) e.push_back(l[(k+r)%3]); for (unsigned k = 0; k < 3; ++k) e.push_back(l[3+(k+s)%3]); M m; d2::InitializeMesh(m.p, m.t, e.data(), 2, 4); VV x(4); x[1] = rv(); const V a = rv(), b = rv(); REQUIRES(cr(a, b) > 1e-2); x[2] = x[1]+a; x[0] = x[1]+b; const D u = vc_real("u"), v = vc_real("v"); REQUIRES(u > 1e-2); REQUIRES(v > 1e-2); REQUIRES(u+v > 1.01); REQUIRES(u < 1e3); REQUIRES(v < 1e3); x[3] = x[1] + u*a + v*b; 
  const bool rev = vc_choose(2); if (rev) d2::EnforceEdge(m.p, m.t, 3, 1, x); else d2::EnforceEdge(m.p, m.t, 1, 3, x); same(m, S{tri(0, 1, 3), tri(1, 2, 3)}, "the other diagonal"); border_edge(m, 1, 3); rejoin(m, 1, 3); valid(m); for (auto &t : m.t) ENSURES_GE_L("triangles keep their orientation", area2(x[t.v[0]], x[t.v[1]], x[t.v[2]]), 0); }
VC(enforce_edge_two) { // the edge 0-4 crosses the edges 1-2 and 2-3 (or 1-3); both flips stay inside convex quadrilaterals
  const bool up = vc_choose(2); const U e = up ? U{0,1,2, 2,1,3, 2,3,4} : U{0,1,2, 1,3,2, 1,4,3}; M m; d2::InitializeMesh(m.p, m.t, e.data(), 3, 5); VV x(5); x[0] = V(0, 0); const D len = vc_real("len"); REQUIRES(len > 0.1); x[4] = V(len, 0);
  const D y1 = vc_real("y1"), y2 = vc_real("y2"), y3 = vc_real("y3"), x1 = vc_real("x1"), x2 = vc_real("x2"), x3 = vc_real("x3"); REQUIRES(y1 < -1e-2); REQUIRES(y2 > 1e-2); if (up) REQUIRES(y3 < -1e-2); else REQUIRES(y3 > 1e-2); x[1] = V(x1, y1); x[2] = V(x2, y2); x[3] = V(x3, y3); for (unsigned k = 0; k < 9; k += 3) REQUIRES(area2(x[e[k]], x[e[k+1]], x[e[k+2]]) > 1e-2); 
  { const D w1 = -y1, w2 = y2, u = up ? w2 : w1, v = up ? -y3 : y3; REQUIRES(w1 > 1e-4*(w1+w2)); REQUIRES(w2 > 1e-4*(w1+w2)); REQUIRES(u > 1e-4*(u+v)); REQUIRES(v > 1e-4*(u+v)); } // the crossings are not near the ends of the edges
  if (up) { REQUIRES(area2(x[0], x[1], x[3]) > 1e-2); REQUIRES(area2(x[1], x[3], x[2]) > 1e-2); REQUIRES(area2(x[0], x[3], x[2]) > 1e-2); REQUIRES(area2(x[0], x[3], x[4]) > 1e-2); REQUIRES(area2(x[0], x[4], x[2]) > 1e-2); } else { REQUIRES(area2(x[0], x[3], x[2]) > 1e-2); REQUIRES(area2(x[0], x[1], x[3]) > 1e-2); REQUIRES(area2(x[0], x[4], x[3]) > 1e-2); REQUIRES(area2(x[0], x[1], x[4]) > 1e-2); }
  d2::EnforceEdge(m.p, m.t, 0, 4, x); same(m, up ? S{tri(0, 1, 3), tri(0, 3, 4), tri(0, 4, 2)} : S{tri(0, 1, 4), tri(0, 4, 3), tri(0, 3, 2)}, "flipped one after the other"); border_edge(m, 0, 4); rejoin(m, 0, 4); valid(m); }
// --- a new point
VC(add_point_inside) { M m = build(vc_choose(2), vc_choose(2)); VV x = points(m); for (auto &t : m.t) REQUIRES(area2(x[t.v[0]], x[t.v[1]], x[t.v[2]]) > 1e-2); const unsigned i = vc_choose((unsigned)m.t.size()), q = (unsigned)x.size(); const V p = rv(); x.push_back(p); m.p.emplace_back(); for (unsigned e = 0; e < 3; ++e) REQUIRES(area2(p, x[m.t[i].v[(e+1)%3]], x[m.t[i].v[(e+2)%3]]) > 1e-3); for (unsigned j = 0; j < m.t.size(); ++j) if (j != i) { const unsigned e = vc_choose(3); REQUIRES(area2(p, x[m.t[j].v[(e+1)%3]], x[m.t[j].v[(e+2)%3]]) < -1e-6); if (m.t[j].s2[e] == i) REQUIRES(d2::DetDelaunay(p, x[m.t[j].v[(e+1)%3]], x[m.t[j].v[(e+2)%3]], x[third(m, j, e)]) != 0); } // the triangles do not overlap; the last follows: the corner beyond a point inside the triangle is outside the circle through that point (inscribed angles)
  const S w = tris(m); const auto v = m.t[i]; d2::AddPointsMesh(x, m.p, m.t, (int)q, 1e-10); valid(m); S y = without(w, tri(v.v[0], v.v[1], v.v[2])); for (unsigned e = 0; e < 3; ++e) y.push_back(tri(q, v.v[e], v.v[(e+1)%3])); same(m, y, "the triangle that contains it is split into three"); for (auto &t : m.t) ENSURES_GE_L("no triangle turns over", area2(x[t.v[0]], x[t.v[1]], x[t.v[2]]), 0); d2::AddPointsMesh(x, m.p, m.t, (int)q, 1e-10); same(m, y, "added once"); }
VC(super_triangle) { D b[4]; HAVOC(b); REQUIRES(b[1]-b[0] > 1e-3); REQUIRES(b[3]-b[2] > 1e-3); const unsigned n = vc_choose(3); VV x; for (unsigned k = 0; k < n; ++k) x.push_back(rv()); const VV old = x; M m; m.p.resize(n); d2::MakeSuperTriangle(x, m.p, m.t, b); ENSURES_L("three more points", x.size() == n+3 && m.p.size() == n+3 && m.t.size() == 1); for (unsigned k = 0; k < n; ++k) eqv(x[k], old[k], "old points stay"); valid(m); const D r = vc_real("r"), s = vc_real("s"); REQUIRES(r >= 0); REQUIRES(r <= 1); REQUIRES(s >= 0); REQUIRES(s <= 1); const V p(b[0] + r*(b[1]-b[0]), b[2] + s*(b[3]-b[2])); const auto &t = m.t[0].v; for (unsigned k = 0; k < 3; ++k) ENSURES_GE_L("the box lies inside", area2(p, x[t[k]], x[t[(k+1)%3]]), 1e-7); }
// --- smoothing
VC(laplacian) { M m = build(1 + vc_choose(7), vc_choose(2)); VV x = points(m); const VV old = x; const unsigned p = vc_choose((unsigned)m.p.size()); if (m.p[p].e == NONE) return; const bool bd = border(m, p), r = d2::dtri2::LaplacianArroundPoint(x, p, m.p, m.t); for (unsigned k = 0; k < x.size(); ++k) if (k != p || bd || !r) eqv(x[k], old[k], "other points stay"); if (bd) { ENSURES_L("inner points only", !r); return; } V s = old[p]; D n = 1; for (unsigned k = 0; k < x.size(); ++k) if (edge(m, p, k)) { s = s + old[k]; n += 1; } s /= n; bool ok = true; D lo = 1; for (auto &t : m.t) for (unsigned k = 0; k < 3; ++k) if (t.v[k] == p) { const D a = area2(s, old[t.v[(k+1)%3]], old[t.v[(k+2)%3]]); if (r) ENSURES_GE_L("no triangle around the point turns over", a, 0); else if (!(a > 0)) ok = false; } (void)lo; ENSURES_L("moves unless a triangle would turn over", r || !ok); if (r) eqv(x[p], s, "the mean of the point and its neighbours"); }
// --- deletion
VC(flag_connected) { const U l[3] = { {0,1,2, 3,4,5, 2,1,6, 4,3,7, 7,3,8}, {0,1,2, 3,4,5, 6,7,8}, {0,1,2, 0,2,3, 0,3,4, 0,4,1} }; const U e = l[vc_choose(3)]; M m; d2::InitializeMesh(m.p, m.t, e.data(), e.size()/3, 9); const unsigned n = (unsigned)m.t.size(), k = vc_choose(n); I f(n, 5); d2::FlagConnected(f, m.t, k, 3); U c(n, 0); c[k] = 1; for (unsigned it = 0; it < n; ++it) for (unsigned i = 0; i < n; ++i) if (c[i]) for (unsigned j : m.t[i].s2) if (j != NONE) c[j] = 1; for (unsigned i = 0; i < n; ++i) ENSURES_L("exactly the connected triangles", f[i] == (c[i] ? 3 : 5));
  M o = m; I g = f; d2::DeleteTriFlag(m.t, g, vc_choose(2) ? 3 : 5); const bool three = g.empty() ? false : g[0] == 3; unsigned j = 0; for (unsigned i = 0; i < n; ++i) { if (g.empty() || f[i] != (three ? 3 : 5)) continue; ENSURES_L("kept in order", j < m.t.size() && j < g.size() && g[j] == f[i]); for (unsigned d = 0; d < 3; ++d) ENSURES_L("same corners", m.t[j].v[d] == o.t[i].v[d]); ++j; } ENSURES_L("nothing else", m.t.size() == j && g.size() == j); const H h = edges_of(m); for (auto &t : m.t) for (unsigned d = 0; d < 3; ++d) ENSURES_L("neighbour across the edge", t.s2[d] == h(t.v[(d+2)%3], t.v[(d+1)%3])); }
static void removed(const M &m, const VV &x, const M &o, const VV &old, const U &del) { U map(old.size(), NONE); unsigned n = 0; for (unsigned i = 0; i < old.size(); ++i) if (!find(del, i)) map[i] = n++; ENSURES_L("one point less each", x.size() == n && m.p.size() == n); for (unsigned i = 0; i < old.size(); ++i) if (map[i] != NONE) eqv(x[map[i]], old[i], "the others keep their place and order"); ENSURES_L("as many triangles", m.t.size() == o.t.size()); for (unsigned i = 0; i < o.t.size(); ++i) for (unsigned d = 0; d < 3; ++d) ENSURES_L("renumbered corners", m.t[i].v[d] == map[o.t[i].v[d]]); valid(m); }
VC(delete_points) { unsigned np; const unsigned k = vc_choose(7); U e = numbered(k, 0, np); const U pos = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}; const unsigned style = vc_choose(3); U map; for (unsigned i = 0, c = 0; i < np; ++i) { if (style == 0 || (style == 1 && i%3 == 1)) ++c; map.push_back(c++); } if (style == 2) for (unsigned &p : map) p += 3; for (unsigned &p : e) p = map[p]; const unsigned n = map.back() + 1 + vc_choose(2)*2; M m; d2::InitializeMesh(m.p, m.t, e.data(), e.size()/3, n); U del; for (unsigned i = 0; i < n; ++i) if (!find(map, i)) del.push_back(i); const VV old = points(m); VV x = old; const M o = m;
  if (vc_choose(2)) { if (vc_choose(2)) std::reverse(del.begin(), del.end()); d2::DeleteUnrefPoints(x, m.p, m.t, del); } else { I f(n, 1), g; for (unsigned i = 0; i < n; ++i) f[i] = find(del, i) ? 7 : (int)i%3; g = f; d2::DeletePointsFlag(x, m.p, m.t, g, 7); unsigned j = 0; for (unsigned i = 0; i < n; ++i) if (f[i] != 7) { ENSURES_L("flags follow", j < g.size() && g[j] == f[i]); ++j; } ENSURES_L("no other flag", g.size() == j); } removed(m, x, o, old, del); }
// --- quantities and export
VC(inverse_mass) { M m = build(vc_choose(4), vc_choose(2)*2); const VV x = points(m); const D rho = vc_real("rho"); REQUIRES(rho > 0.1); for (auto &t : m.t) REQUIRES(area2(x[t.v[0]], x[t.v[1]], x[t.v[2]]) > 1e-2); std::vector<D> w(3, 9); d2::MakeInvMassLumped_Tri(w, rho, x, m.t); ENSURES_L("one per point", w.size() == x.size()); for (unsigned p = 0; p < x.size(); ++p) { D s = 0; for (auto &t : m.t) if (t.v[0] == p || t.v[1] == p || t.v[2] == p) s += area2(x[t.v[0]], x[t.v[1]], x[t.v[2]])/2; if (m.p[p].e == NONE) ENSURES_EQ_L("unused point", w[p], 0); else ENSURES_EQ_L("inverse of a third of the mass around the point", w[p]*(rho*s), 3); } }
VC(minmax) { M m = build(vc_choose(4), 0); const VV x = points(m); D lo = 3, hi = -3; d2::MinMaxTriArea(lo, hi, x, m.t); bool l = false, h = false; for (auto &t : m.t) { const D a = area2(x[t.v[0]], x[t.v[1]], x[t.v[2]])/2; ENSURES_GE_L("no smaller area", a, lo); ENSURES_GE_L("no larger area", hi, a); l = l || a == lo; h = h || a == hi; } ENSURES_L("attained", l && h); }
VC(bounds) { const unsigned n = 1 + vc_choose(3); d2::CMeshDynTri2D c; for (unsigned k = 0; k < n; ++k) c.aVec2.push_back(rv()); c.aEPo.resize(n); const std::vector<D> b = c.MinMax_XYZ(); ENSURES_L("six numbers", b.size() == 6); for (unsigned d = 0; d < 2; ++d) { bool lo = false, hi = false; for (unsigned k = 0; k < n; ++k) { const D y = c.aVec2[k].p[d]; ENSURES_GE_L("inside", y, b[2*d]); ENSURES_GE_L("inside", b[2*d+1], y); lo = lo || y == b[2*d]; hi = hi || y == b[2*d+1]; } ENSURES_L("attained", lo && hi); } ENSURES_EQ_L("flat", b[4], 0); ENSURES_EQ_L("flat", b[5], 0); }
VC(object) { unsigned np; const unsigned pk[4] = {0, 1, 3, 9}; const U e = numbered(pk[vc_choose(4)], vc_choose(2), np); std::vector<D> xy(2*np), z(2*np); vc_reals(xy.data(), (int)(2*np), "xy"); vc_reals(z.data(), (int)(2*np), "z"); d2::CMeshDynTri2D c; c.Initialize(xy.data(), (int)np, e.data(), (int)(e.size()/3)); c.Check(); ENSURES_L("sizes", c.nTri() == e.size()/3 && c.nPoint() == np && c.aVec2.size() == np); M m; m.p = c.aEPo; m.t = c.aETri; valid(m);
  std::vector<D> o = {1, 2, 3}; U t = {4}; c.Export_StlVectors(o, t); ENSURES_L("sizes", o.size() == 2*np && t.size() == e.size()); for (unsigned k = 0; k < 2*np; ++k) ENSURES_EQ_L("coordinates", o[k], xy[k]); for (unsigned k = 0; k < e.size(); ++k) ENSURES_L("corners", t[k] == e[k]); c.setXY(z.data(), (int)np); d2::CMeshTri2D(o, t, c.aVec2, c.aETri); ENSURES_L("sizes", o.size() == 2*np && t.size() == e.size()); for (unsigned k = 0; k < 2*np; ++k) ENSURES_EQ_L("new coordinates", o[k], z[k]); for (unsigned k = 0; k < e.size(); ++k) ENSURES_L("corners", t[k] == e[k]);
  const D r = vc_real("r"), s = vc_real("s"); const unsigned i = (unsigned)c.nTri()/2; const V w = r*c.aVec2[c.aETri[i].v[0]] + s*c.aVec2[c.aETri[i].v[1]] + (1-r-s)*c.aVec2[c.aETri[i].v[2]]; const int q = c.insertPointElem((int)i, r, s); ENSURES_L("the new point comes last", q == (int)np && c.nPoint() == np+1 && c.aVec2.size() == np+1 && c.nTri() == e.size()/3+2); eqv(c.aVec2[np], w, "where it was asked for"); m.p = c.aEPo; m.t = c.aETri; valid(m); c.Clear(); ENSURES_L("empty", c.nTri() == 0 && c.nPoint() == 0 && c.aVec2.empty()); }
VC(refinement_plan) { M m = build(vc_choose(2), 0); const VV x = points(m); const D len = vc_real("len"), px = vc_real("px"), py = vc_real("py"), rad = vc_real("rad"); REQUIRES(len > 1e-2); REQUIRES(rad > 1e-2); d2::CCmdRefineMesh cmd; d2::RefinementPlan_EdgeLongerThan_InsideCircle(cmd, len, px, py, rad, m.p, x, m.t);
  for (unsigned a = 0; a < x.size(); ++a) for (unsigned b = a+1; b < x.size(); ++b) { unsigned n = 0; for (auto &c : cmd.aCmdEdge) if (c.ipo0 == (int)a && c.ipo1 == (int)b) { ++n; ENSURES_EQ_L("at the middle", c.r0, 0.5); } bool want = false; for (auto &t : m.t) { bool on = false; for (unsigned k = 0; k < 3; ++k) on = on || (t.v[k] != a && t.v[k] != b && (t.v[(k+1)%3] == a || t.v[(k+1)%3] == b) && (t.v[(k+2)%3] == a || t.v[(k+2)%3] == b)); if (!on) continue; const V c = (x[t.v[0]] + x[t.v[1]] + x[t.v[2]])*0.333333 - V(px, py), d = x[a]-x[b]; want = want || (sqrt(c.p[0]*c.p[0]+c.p[1]*c.p[1]) < rad && sqrt(d.p[0]*d.p[0]+d.p[1]*d.p[1]) > len); } ENSURES_L("long edges of triangles inside the circle, once each", n == (want ? 1u : 0u)); } for (auto &c : cmd.aCmdEdge) ENSURES_L("ordered ends", c.ipo0 < c.ipo1 && c.ipo0 >= 0 && c.ipo1 < (int)x.size()); }
// --- meshing of polygons, executed
VC(mesh_polygon_run) {
  const unsigned n = 3 + vc_choose(12), hole = vc_choose(3); std::vector<D> q, h; auto U01 = [&] { return vc_choose(1000)/1000.; }; for (unsigned i = 0; i < n; ++i) { const D r = 1 + 2*U01(), a = 2*M_PI*(i+0.4*U01())/n; q.push_back(r*cos(a)); q.push_back(r*sin(a)); } std::vector<std::vector<D>> in(1, q); if (hole && n > 5) { for (unsigned i = 0; i < 5; ++i) { const D r = 0.05 + 0.2*U01(), a = (hole == 1 ? 1 : -1)*2*M_PI*(i+0.4*U01())/5; h.push_back(r*cos(a)); h.push_back(r*sin(a)); } in.push_back(h); }
  D A = 0; for (unsigned k = 0; k < in.size(); ++k) { D s = 0; const auto &p = in[k]; const unsigned m = (unsigned)p.size()/2; for (unsigned i = 0; i < m; ++i) { const unsigned j = (i+1)%m; s += 0.5*(p[2*i]*p[2*j+1]-p[2*j]*p[2*i+1]); } A += k ? -fabs(s) : s; } if (vc_choose(2)) { auto &p = in[0]; std::vector<D> r; for (size_t i = p.size(); i > 0; i -= 2) { r.push_back(p[i-2]); r.push_back(p[i-1]); } p = r; }
  const D re = vc_choose(2)*0.3, rf = vc_choose(2)*0.3; M m; VV x; d2::GenMesh(m.p, m.t, x, in, re, rf); ENSURES_L("one record per point", m.p.size() == x.size()); valid(m); D s = 0, lo = 1e9; for (auto &t : m.t) { const D a = area2(x[t.v[0]], x[t.v[1]], x[t.v[2]])/2; s += a; lo = std::min(lo, a); } ENSURES_L("every triangle is positively oriented", lo > 0); ENSURES_L("the triangles fill the region", fabs(s-A) < 1e-9*A); unsigned k = 0; for (const auto &p : in) for (unsigned i = 0; i+1 < p.size(); i += 2) { bool is = false; for (unsigned j = 0; j < x.size(); ++j) is = is || (x[j].p[0] == p[i] && x[j].p[1] == p[i+1] && m.p[j].e != NONE && border(m, j)); ENSURES_L("the given corners are border points", is); ++k; }
  if (re > 0) { for (auto &t : m.t) for (unsigned e = 0; e < 3; ++e) if (t.s2[e] == NONE) { const V d = x[t.v[(e+1)%3]] - x[t.v[(e+2)%3]]; ENSURES_L("border edges are short", sqrt(d.p[0]*d.p[0]+d.p[1]*d.p[1]) < 0.31); } }
}
