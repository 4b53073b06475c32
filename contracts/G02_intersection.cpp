// intersections of edges, boxes and triangles
// @opts: prune=2
// @stub: edge2_distance /Distance_Edge_Point/ stub_distance
// @stub: edge2_distance /IsIntersect_Edge2_Edge2/ stub_crossing
// @opts_for: edge2_edge2_apart,edge2_edge2_cross,box2_contains,box3_contains,box2_misses,box3_misses,triangle_pair_planes prune=0
// @bounded: triangle_pair_run edge2_distance_run box_run
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_tri.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static D cr2(const V2 &a, const V2 &b) { return a.p[0]*b.p[1]-a.p[1]*b.p[0]; }
static D sq(const V2 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]; }
static D sq(const V3 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]+a.p[2]*a.p[2]; }
static D ip(const V3 &a, const V3 &b) { return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V3 cr(const V3 &a, const V3 &b) { return V3(a.p[1]*b.p[2]-a.p[2]*b.p[1], a.p[2]*b.p[0]-a.p[0]*b.p[2], a.p[0]*b.p[1]-a.p[1]*b.p[0]); }

// --- padded boxes around a few points contain the origin
template<class V, int N> static bool box(const V (&p)[6], D d) { if constexpr (N == 3) return d2::IsContact_Orgin_AabbOfPoint3(p[0], p[1], p[2], d); else if constexpr (N == 4) return d2::IsContact_Orgin_AabbOfPoint4(p[0], p[1], p[2], p[3], d); else if constexpr (N == 5) return d2::IsContact_Orgin_AabbOfPoint5(p[0], p[1], p[2], p[3], p[4], d); else return d2::IsContact_Orgin_AabbOfPoint6(p[0], p[1], p[2], p[3], p[4], p[5], d); }
template<class V, int M> static bool box_n(int n, const V (&p)[6], D d) { return n == 3 ? box<V, 3>(p, d) : n == 4 ? box<V, 4>(p, d) : n == 5 ? box<V, 5>(p, d) : box<V, 6>(p, d); }
// axis j is symbolic, on the other axes all points are at c inside the padding
template<class V, int M> static void box_axis(bool in, int n) {
  const int j = (int)vc_choose(M); V p[6]; const D d = vc_real("d"), c = vc_real("c"); REQUIRES(d >= 0); REQUIRES(c <= d); REQUIRES(c >= -d); for (int i = 0; i < n; ++i) { for (int k = 0; k < M; ++k) p[i].p[k] = c; p[i].p[j] = vc_real("p"); }
  if (in) { const int lo = (int)vc_choose(n), hi = (int)vc_choose(n); REQUIRES(p[lo].p[j] <= d); REQUIRES(p[hi].p[j] >= -d); } else { const D s = vc_choose(2) ? 1 : -1; for (int i = 0; i < n; ++i) REQUIRES(s*p[i].p[j] > d); }
  ENSURES_L("the padded box contains the origin unless all points are beyond one of its sides", (box_n<V, M>(n, p, d)) == in);
}
VC(box2_contains) { box_axis<V2, 2>(true, 3 + (int)vc_choose(4)); }
VC(box3_contains) { box_axis<V3, 3>(true, 3 + (int)vc_choose(4)); }
VC(box2_misses) { box_axis<V2, 2>(false, 3 + (int)vc_choose(4)); }
VC(box3_misses) { box_axis<V3, 3>(false, 3 + (int)vc_choose(4)); }
VC(box_run) { // all coordinates at once
  const int n = 3 + (int)vc_choose(4); V3 p[6]; const D d = vc_real("d"); REQUIRES(d >= 0); bool in = true; for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) p[i].p[k] = vc_real("p"); for (int k = 0; k < 3; ++k) { D lo = 1e99, hi = -1e99; for (int i = 0; i < n; ++i) { lo = std::min(lo, p[i].p[k]); hi = std::max(hi, p[i].p[k]); } REQUIRES(fabs(lo-d) > 1e-6 && fabs(hi+d) > 1e-6); if (lo > d || hi < -d) in = false; } ENSURES_L("the padded box contains the origin unless all points are beyond one of its sides", (box_n<V3, 3>(n, p, d)) == in); }

// --- edges in the plane; x is the common point of the two lines
static void edges(unsigned ks, unsigned kt) {
  D x[2], d[2], e[2]; HAVOC(x); for (int i = 0; i < 2; ++i) { const D a = vc_real("d"), b = vc_real("e"); REQUIRES(a > 0); REQUIRES(b > 0); d[i] = vc_choose(2) ? a : -a; e[i] = vc_choose(2) ? b : -b; } const D s = vc_real("s"), t = vc_real("t"); const V2 X = v2(x), U = v2(d), W = v2(e); const D c0 = cr2(U, W); REQUIRES(vc_choose(2) ? c0 > 1e-6 : c0 < -1e-6); if (ks == 0) { REQUIRES(s < 0); } else if (ks == 1) { REQUIRES(s > 0); REQUIRES(s < 1); } else { REQUIRES(s > 1); } if (kt == 0) { REQUIRES(t < 0); } else if (kt == 1) { REQUIRES(t > 0); REQUIRES(t < 1); } else { REQUIRES(t > 1); }
  const V2 a = X - s*U, b = X + (1-s)*U, c = X - t*W, f = X + (1-t)*W; ENSURES_L("edges cross if and only if the common point of their lines is inside both", d2::IsIntersect_Edge2_Edge2(a, b, c, f) == (ks == 1 && kt == 1));
}
VC(edge2_edge2_cross) { edges(1, 1); }
VC(edge2_edge2_apart) { const unsigned k = vc_choose(8); edges(k < 4 ? k%3 : (k+1)%3, k < 4 ? k/3 : (k+1)/3); } // all but (1, 1)
VC(edge2_edge2_collinear) { // two edges on one line: parameters [0,1] and [u,v]
  D a[2], d[2]; HAVOC(a); HAVOC(d); const D u = vc_real("u"), v = vc_real("v"); const V2 A = v2(a), U = v2(d); REQUIRES(d[0] > 1e-3 || d[0] < -1e-3); const bool sw = vc_choose(2); const bool over = vc_choose(2); REQUIRES(u < v); if (over) { REQUIRES(u <= 1); REQUIRES(v >= 0); } else if (vc_choose(2)) { REQUIRES(u > 1 + 3e-4*(1 + v-u)); } else { REQUIRES(v < -3e-4*(1 + v-u)); }
  REQUIRES(fabs(d[1]) <= fabs(d[0])); const V2 c = A + (sw ? v : u)*U, f = A + (sw ? u : v)*U; ENSURES_L("edges on one line intersect if and only if they overlap", d2::IsIntersect_Edge2_Edge2(A, A + U, c, f) == over);
}
// contracts of the callees: edge2_edge2 above and edge2_point in G01
static D vc_dist[4]; static int vc_ndist; static bool vc_cross;
extern "C" D stub_distance(const V2 &, const V2 &, const V2 &) { const D d = vc_real("dist"); REQUIRES(d >= 0); vc_dist[vc_ndist++%4] = d; return d; }
extern "C" bool stub_crossing(const V2 &, const V2 &, const V2 &, const V2 &) { return vc_cross; }
VC(edge2_distance) {
  D p[8]; HAVOC(p); vc_cross = vc_choose(2); vc_ndist = 0; const D d = d2::Distance_Edge2_Edge2(v2(p), v2(p+2), v2(p+4), v2(p+6)); if (vc_cross) { ENSURES_EQ_L("-1 for crossing edges", d, -1); return; }
  ENSURES_L("each end against the other edge", vc_ndist == 4); D e = 1; for (int i = 0; i < 4; ++i) { ENSURES_GE_L("smallest distance", vc_dist[i], d); e *= d - vc_dist[i]; } ENSURES_EQ_L("smallest distance", e, 0);
}
VC(edge2_distance_run) {
  D p[8]; HAVOC(p); const V2 a = v2(p), b = v2(p+2), c = v2(p+4), e = v2(p+6); REQUIRES(sq(b-a) > 1e-2 && sq(e-c) > 1e-2); const D q1 = cr2(b-a, c-a), q2 = cr2(b-a, e-a), q3 = cr2(e-c, a-c), q4 = cr2(e-c, b-c); REQUIRES(fabs(q1) > 1e-3 && fabs(q2) > 1e-3 && fabs(q3) > 1e-3 && fabs(q4) > 1e-3); const D d = d2::Distance_Edge2_Edge2(a, b, c, e); if (q1*q2 < 0 && q3*q4 < 0) { ENSURES_EQ_L("-1 for crossing edges", d, -1); return; }
  const D w = vc_real("w"), v = vc_real("v"); const D s = w < 0 ? 0 : w > 1 ? 1 : w, t = v < 0 ? 0 : v > 1 ? 1 : v; ENSURES_GE_L("no pair of points is nearer", sqrt(sq(a + s*(b-a) - c - t*(e-c))) + 1e-12, d); D m = 1e99; const V2 X[4] = {a, b, c, e}; for (int i = 0; i < 4; ++i) { const V2 f = i < 2 ? c : a, g = i < 2 ? e : b; D r = ((X[i]-f).p[0]*(g-f).p[0] + (X[i]-f).p[1]*(g-f).p[1])/sq(g-f); r = r < 0 ? 0 : r > 1 ? 1 : r; m = std::min(m, sqrt(sq(f + r*(g-f) - X[i]))); } ENSURES_EQ_L("smallest distance of an end to the other edge", d, m);
}
// --- box and edge: a common point, or a separating line (side of the box or along the edge)
VC(box_edge_hit) {
  D lo[2], w[2], x[2], d[2]; HAVOC(lo); HAVOC(w); HAVOC(x); HAVOC(d); const D s = vc_real("s"); for (int j = 0; j < 2; ++j) { REQUIRES(w[j] > 0); REQUIRES(x[j] > 0); REQUIRES(x[j] < 1); } REQUIRES(s >= 0); REQUIRES(s <= 1); REQUIRES(sq(v2(d)) > 1e-6); const V2 a = v2(lo), b(lo[0]+w[0], lo[1]+w[1]), X(lo[0]+x[0]*w[0], lo[1]+x[1]*w[1]), U = v2(d);
  ENSURES_L("edge through a point inside the box", d2::IsIntersect_AABB2_Edge2(a, b, X - s*U, X + (1-s)*U));
}
VC(box_edge_miss) {
  D lo[2], w[2], p[2], q[2]; HAVOC(lo); HAVOC(w); HAVOC(p); HAVOC(q); REQUIRES(w[0] >= 0); REQUIRES(w[1] >= 0); const V2 a = v2(lo), b(lo[0]+w[0], lo[1]+w[1]), P = v2(p), Q = v2(q); const unsigned k = vc_choose(6); const int j = k/2;
  if (k < 4) { if (k%2) { REQUIRES(p[j] < lo[j]); REQUIRES(q[j] < lo[j]); } else { REQUIRES(p[j] > b.p[j]); REQUIRES(q[j] > b.p[j]); } }
  else { const D s = k%2 ? 1 : -1; for (int c = 0; c < 4; ++c) { const V2 C(c%2 ? b.p[0] : a.p[0], c/2 ? b.p[1] : a.p[1]); REQUIRES(s*cr2(Q-P, C-P) > 0); } }
  ENSURES_L("edge separated from the box", !d2::IsIntersect_AABB2_Edge2(a, b, P, Q));
}
// --- pairs of triangles of a mesh
VC(triangle_pair_shared) { D x[15]; HAVOC(x); const std::vector<D> X(x, x+15); V3 p, q; const unsigned k = vc_choose(3), l = vc_choose(3); std::vector<unsigned> T = {0, 1, 2, 3, 4, 3}; T[3+l] = k; T[3+(l+1)%3] = 3; T[3+(l+2)%3] = 4; ENSURES_L("triangles that share a vertex are not reported", !d2::isIntersectTriPair(p, q, 0, 1, T, X) && !d2::isIntersectTriPair(p, q, 1, 0, T, X)); }
static void triangles(V3 (&P)[3], V3 (&Q)[3], std::vector<D> &X, std::vector<unsigned> &T) { D x[18]; HAVOC(x); X.assign(x, x+18); T = {3, 0, 5, 4, 2, 1}; for (int i = 0; i < 3; ++i) { P[i] = v3(x+3*T[i]); Q[i] = v3(x+3*T[3+i]); } }
VC(triangle_pair_aside) { // one triangle on one side of the plane of the other
  V3 P[3], Q[3], a, b; std::vector<D> X; std::vector<unsigned> T; triangles(P, Q, X, T); const V3 n = cr(Q[1]-Q[0], Q[2]-Q[0]); const D s = vc_choose(2) ? 1 : -1; for (int i = 0; i < 3; ++i) REQUIRES(s*ip(P[i]-Q[0], n) > 0); const bool f = vc_choose(2); ENSURES_L("no intersection", !d2::isIntersectTriPair(a, b, f, !f, T, X));
}
VC(triangle_pair_planes) { // the ends of the common segment lie on both planes
  V3 P[3], Q[3], a, b; std::vector<D> X; std::vector<unsigned> T; triangles(P, Q, X, T); const V3 n = cr(Q[1]-Q[0], Q[2]-Q[0]), m = cr(P[1]-P[0], P[2]-P[0]); const unsigned k = vc_choose(3), l = vc_choose(3); const D s = vc_choose(2) ? 1 : -1, t = vc_choose(2) ? 1 : -1; for (unsigned i = 0; i < 3; ++i) { REQUIRES((i == k ? s : -s)*ip(P[i]-Q[0], n) > 1e-6); REQUIRES((i == l ? t : -t)*ip(Q[i]-P[0], m) > 1e-6); }
  if (d2::isIntersectTriPair(a, b, 0, 1, T, X)) { ENSURES_EQ_L("on the plane of the second triangle", ip(a-Q[0], n), 0); ENSURES_EQ_L("on the plane of the second triangle", ip(b-Q[0], n), 0); ENSURES_EQ_L("on the plane of the first triangle", ip(a-P[0], m), 0); ENSURES_EQ_L("on the plane of the first triangle", ip(b-P[0], m), 0); }
}
static D side(const V3 &a, const V3 &b, const V3 &n, const V3 &x) { return ip(cr(b-a, x-a), n); }
VC(triangle_pair_run) {
  V3 P[3], Q[3], a, b; std::vector<D> X; std::vector<unsigned> T; triangles(P, Q, X, T); const V3 n = cr(Q[1]-Q[0], Q[2]-Q[0]), m = cr(P[1]-P[0], P[2]-P[0]); REQUIRES(sq(n) > 1e-4 && sq(m) > 1e-4); bool hit = false; // an edge of one triangle passes through the other
  for (int f = 0; f < 2; ++f) { const V3 *A = f ? P : Q, *B = f ? Q : P; const V3 c = f ? m : n; for (int i = 0; i < 3; ++i) { const V3 s = B[i], e = B[(i+1)%3]; const D h = ip(s-A[0], c), g = ip(e-A[0], c); REQUIRES(fabs(h) > 1e-3 && fabs(g) > 1e-3); if (h*g > 0) continue; const V3 x = (1/(h-g))*(h*e - g*s); bool in = true; for (int j = 0; j < 3; ++j) { const D w = side(A[j], A[(j+1)%3], c, x); REQUIRES(fabs(w) > 1e-3*sq(c)); if (w < 0) in = false; } hit = hit || in; } }
  const bool r = d2::isIntersectTriPair(a, b, 0, 1, T, X); ENSURES_L("triangles intersect if and only if an edge of one passes through the other", r == hit); if (r) for (int j = 0; j < 3; ++j) for (const V3 &x : {a, b}) ENSURES_L("the ends of the common segment are in both triangles", side(P[j], P[(j+1)%3], m, x) > -1e-7*(1+sq(m)) && side(Q[j], Q[(j+1)%3], n, x) > -1e-7*(1+sq(n)));
}
