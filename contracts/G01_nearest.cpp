// nearest points and distances: lines, edges, planes, triangles, quads, polylines
// @opts: prune=2
// @bounded: edge3_edge3_contact
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_line.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_quad.h"
#include "delfem2/geo_polyline.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static void eq3(const V3 &a, const V3 &b, const char *l) { for (int i = 0; i < 3; ++i) ENSURES_EQ_L(l, a.p[i], b.p[i]); }
static D sq(const V2 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]; }
static D sq(const V3 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]+a.p[2]*a.p[2]; }
static D ip(const V3 &a, const V3 &b) { return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }

// --- lines
VC(line_parameter) { D c[3], s[3], e[3]; HAVOC(c); HAVOC(s); HAVOC(e); REQUIRES_POS(sq(v3(e)-v3(s)), 1e-2); const D t = d2::FindNearestPointParameter_Line_Point(v3(c), v3(s), v3(e)); ENSURES_EQ_L("the foot is perpendicular", ip(v3(s) + t*(v3(e)-v3(s)) - v3(c), v3(e)-v3(s)), 0);
  D c2[2], s2[2], e2[2]; HAVOC(c2); HAVOC(s2); HAVOC(e2); REQUIRES_POS(sq(v2(e2)-v2(s2)), 1e-2); const D u = d2::FindNearestPointParameter_Line_Point(v2(c2), v2(s2), v2(e2)); const V2 f = v2(s2) + u*(v2(e2)-v2(s2)); ENSURES_EQ_L("the foot is perpendicular", (f.x-c2[0])*(e2[0]-s2[0]) + (f.y-c2[1])*(e2[1]-s2[1]), 0); }
VC(line_point) { D p[3], s[3], d[3]; HAVOC(p); HAVOC(s); HAVOC(d); const V3 P = v3(p), S = v3(s), d3 = v3(d); REQUIRES_POS(sq(d3), 1e-2); const V3 f = d2::Nearest_Line3_Point3<V3>(P, S, d3); ENSURES_EQ_L("perpendicular", ip(f-P, d3), 0); const V3 x = (f-S).cross(d3); eq3(x, V3(0,0,0), "on the line");
  D t; const V3 g = d2::Nearest_Line3_Point3(t, P, S, d3); eq3(g, f, "same point"); eq3(g, S + t*d3, "at the returned parameter"); }
VC(line_line) {
  D a[3], u[3], b[3], v[3]; HAVOC(a); HAVOC(u); HAVOC(b); HAVOC(v); const V3 A = v3(a), U = v3(u), B = v3(b), W = v3(v); D s, s2, ta, tb; V3 na, nb, ma, mb; d2::Nearest_Line3_Line3(s, na, nb, A, U, B, W); d2::Nearest_Line3_Line3(s2, ma, mb, ta, tb, A, U, B, W);
  ENSURES_EQ_L("scale is the squared cross product of the directions", s, sq(U.cross(W))); ENSURES_EQ_L("same scale", s2, s); eq3(ma, na, "same point"); eq3(mb, nb, "same point"); eq3(na - s*A, ta*U, "scaled point on the first line"); eq3(nb - s*B, tb*W, "scaled point on the second line"); ENSURES_EQ_L("common perpendicular", ip(na-nb, U), 0); ENSURES_EQ_L("common perpendicular", ip(na-nb, W), 0);
}
VC(line_circle) {
  D s[3], d[3], o[3], n[3]; HAVOC(s); HAVOC(d); HAVOC(o); D nr[3]; HAVOC(nr); spec::unit3(n, nr); const D r = vc_real("r"); REQUIRES_POS(r, 1e-2); REQUIRES_POS(sq(v3(d)), 1e-2); REQUIRES_POS(n[0]*n[0]+n[2]*n[2], 1e-2); V3 p, q; d2::Nearest_Line_Circle(p, q, v3(s), v3(d), v3(o), v3(n), r);
  ENSURES_EQ_L("on the circle: in its plane", ip(q-v3(o), v3(n)), 0); ENSURES_EQ_L("on the circle: at its radius", sq(q-v3(o)), r*r); eq3((p-v3(s)).cross(v3(d)), V3(0,0,0), "on the line");
}
// --- edges
template<class V, int N> static void edge_nearest(const V &P, const V &S, const V &E) {
  REQUIRES_POS(sq(E-S), 1e-2); D t; const V n = d2::Nearest_Edge_Point(t, P, S, E), m = d2::Nearest_Edge_Point(P, S, E); ENSURES_L("parameter in [0,1]", t >= 0 && t <= 1); for (int i = 0; i < N; ++i) { ENSURES_EQ_L("on the edge at the returned parameter", n.p[i], (1-t)*S.p[i] + t*E.p[i]); ENSURES_EQ_L("same point", m.p[i], n.p[i]); }
  const D w = vc_real("w"); REQUIRES(w >= 0 && w <= 1); const V y = (1-w)*S + w*E; ENSURES_GE_L("no point of the edge is nearer", sq(y-P), sq(n-P)); const D d = d2::Distance_Edge_Point(P, S, E); ENSURES_EQ_L("distance to the nearest point", d*d, sq(n-P)); ENSURES_GE_L("distance is non-negative", d, 0);
}
VC(edge2_point) { D p[2], s[2], e[2]; HAVOC(p); HAVOC(s); HAVOC(e); edge_nearest<V2, 2>(v2(p), v2(s), v2(e)); }
VC(edge3_point) { D p[3], s[3], e[3]; HAVOC(p); HAVOC(s); HAVOC(e); edge_nearest<V3, 3>(v3(p), v3(s), v3(e)); }
VC(edge3_point_array) { D p[3], s[3], e[3], n[3]; HAVOC(p); HAVOC(s); HAVOC(e); REQUIRES_POS(sq(v3(e)-v3(s)), 1e-2); d2::Nearest_Edge3_Point3(n, p, s, e); const V3 m = d2::Nearest_Edge_Point(v3(p), v3(s), v3(e)); eq3(v3(n), m, "nearest point of the edge"); }
VC(edge_origin) { D s[3], e[3]; HAVOC(s); HAVOC(e); D r; const V3 m = d2::Nearest_Origin_Edge(r, v3(s), v3(e)), k = d2::Nearest_Origin_Edge(v3(s), v3(e)); eq3(m, k, "same point"); REQUIRES_POS(sq(v3(e)-v3(s)), 1e-2); eq3(m, (1-r)*v3(s) + r*v3(e), "at the returned parameter"); }
VC(edge_degenerate) { D p[3], s[3], n[3]; HAVOC(p); HAVOC(s); D t; eq3(d2::Nearest_Edge_Point(t, v3(p), v3(s), v3(s)), v3(s), "a point is nearest to itself"); d2::Nearest_Edge3_Point3(n, p, s, s); eq3(v3(n), v3(s), "a point is nearest to itself"); }
VC(edge3_line) {
  D s[3], e[3], o[3], d[3]; HAVOC(s); HAVOC(e); HAVOC(o); HAVOC(d); const V3 S = v3(s), E = v3(e), O = v3(o), W = v3(d); REQUIRES(sq((E-S).cross(W)) > 1e-4); REQUIRES(sq(W) > 1e-4); REQUIRES(sq(E-S) > 1e-4);
  V3 a, b; d2::Nearest_Edge3_Line3(a, b, S, E, O, W); ENSURES_EQ_L("foot on the line is perpendicular", ip(a-b, W), 0); eq3((b-O).cross(W), V3(0,0,0), "on the line"); eq3((a-S).cross(E-S), V3(0,0,0), "on the line of the edge"); ENSURES_GE_L("inside the edge", ip(a-S, E-S), 0); ENSURES_GE_L("inside the edge", ip(E-a, E-S), 0);
  ENSURES_GE_L("no point towards the start is nearer", ip(S-a, a-b), 0); ENSURES_GE_L("no point towards the end is nearer", ip(E-a, a-b), 0);
}
VC(edge3_line_parallel) { D s[3], o[3], d[3]; HAVOC(s); HAVOC(o); HAVOC(d); const D k = vc_real("k"); REQUIRES_POS(sq(v3(d)), 1e-2); V3 a, b; d2::Nearest_Edge3_Line3(a, b, v3(s), v3(s) + k*v3(d), v3(o), v3(d)); ENSURES_EQ_L("foot on the line is perpendicular", ip(a-b, v3(d)), 0); eq3(a, v3(s) + (k/2)*v3(d), "middle of a parallel edge"); eq3((b-v3(o)).cross(v3(d)), V3(0,0,0), "on the line"); }
VC(edge3_edge3) {
  D p[6], q[6]; HAVOC(p); HAVOC(q); const V3 P = v3(p), U = v3(p+3)-P, Q = v3(q), W = v3(q+3)-Q; REQUIRES(sq(U.cross(W)) > 1e-4); D rp, rq; const D d = d2::Distance_Edge3_Edge3(P, v3(p+3), Q, v3(q+3), rp, rq); const V3 e = P + rp*U - Q - rq*W; ENSURES_EQ_L("common perpendicular", ip(e, U), 0); ENSURES_EQ_L("common perpendicular", ip(e, W), 0); ENSURES_EQ_L("distance of the lines", d*d, sq(e)); ENSURES_GE_L("distance is non-negative", d, 0);
}
VC(edge3_edge3_parallel) { // q lies on a line parallel to p: overlapping edges have a common foot inside both
  D p[3], u[3], h[3]; HAVOC(p); HAVOC(u); HAVOC(h); const V3 P = v3(p), U = v3(u); REQUIRES_POS(sq(U), 1e-2); REQUIRES(ip(v3(h), U) == 0 || true); const V3 H = v3(h) - (ip(v3(h), U)/sq(U))*U; const D a = vc_real("a"), b = vc_real("b"); REQUIRES(b - a > 1e-3 || a - b > 1e-3);
  D rp, rq; const D d = d2::Distance_Edge3_Edge3(P, P + U, P + H + a*U, P + H + b*U, rp, rq); ENSURES_EQ_L("distance of the lines", d*d, sq(H)); const V3 e = P + rp*U - (P + H + (a + rq*(b-a))*U); eq3(e, -H, "perpendicular feet");
  const D lo = a < b ? a : b, hi = a < b ? b : a; if (lo < 1 && hi > 0) ENSURES_L("overlapping edges: feet inside both", rp >= 0 && rp <= 1 && rq >= 0 && rq <= 1);
}
VC(edge3_edge3_contact) {
  D p[6], q[6]; HAVOC(p); HAVOC(q); const D dl = vc_real("delta"); REQUIRES_POS(dl, 1e-2); const V3 P = v3(p), U = v3(p+3)-P, Q = v3(q), W = v3(q+3)-Q; REQUIRES(sq(U.cross(W)) > 1e-4); const bool c = d2::IsContact_Edge3_Edge3_Proximity(0, 1, 2, 3, P, v3(p+3), Q, v3(q+3), dl); D rp, rq; const D d = d2::Distance_Edge3_Edge3(P, v3(p+3), Q, v3(q+3), rp, rq);
  ENSURES_L("contact if and only if the feet are inside both edges and near", c == (d <= dl && rp >= 0 && rp <= 1 && rq >= 0 && rq <= 1));
}
VC(edge3_edge3_contact_shared) { D p[6], q[6]; HAVOC(p); HAVOC(q); const D dl = vc_real("delta"); const unsigned k = vc_choose(4); ENSURES_L("edges that share a vertex are not in contact", !d2::IsContact_Edge3_Edge3_Proximity(4, 7, k == 0 ? 4 : k == 1 ? 7 : 1, k == 2 ? 4 : k == 3 ? 7 : 2, v3(p), v3(p+3), v3(q), v3(q+3), dl)); }
VC(edge_inertia) { // about the origin: integral of |x|^2 I - x x^T along the edge
  D a[3], b[3]; HAVOC(a); HAVOC(b); const auto I = d2::Mat3_IrotLineSeg(v3(a), v3(b)); const D l = sqrt(sq(v3(b)-v3(a))); D M[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i*3+j] = l*(2*a[i]*a[j] + a[i]*b[j] + b[i]*a[j] + 2*b[i]*b[j])/6; const D tr = M[0]+M[4]+M[8]; for (int i = 0; i < 9; ++i) ENSURES_EQ_L("moment of inertia", I[i], (i%4 ? 0 : tr) - M[i]);
}
// --- planes
VC(plane_point) { D p[3], o[3], n[3]; HAVOC(p); HAVOC(o); HAVOC(n); REQUIRES_POS(sq(v3(n)), 1e-2); const V3 f = d2::Nearest_Plane3_Point3(v3(p), v3(o), v3(n)); ENSURES_EQ_L("on the plane", ip(f-v3(o), v3(n)), 0); eq3((f-v3(p)).cross(v3(n)), V3(0,0,0), "along the normal"); }
VC(plane_line) { D o[3], n[3], s[3], d[3]; HAVOC(o); HAVOC(n); HAVOC(s); HAVOC(d); REQUIRES_NONZERO(ip(v3(d), v3(n))); const V3 x = d2::Intersection_Plane3_Line3(v3(o), v3(n), v3(s), v3(d)); ENSURES_EQ_L("on the plane", ip(x-v3(o), v3(n)), 0); eq3((x-v3(s)).cross(v3(d)), V3(0,0,0), "on the line"); }
// --- triangles
VC(origin_plane_of_triangle) { D q[9]; HAVOC(q); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = (b-a).cross(c-a); REQUIRES(sq(n) > 1e-4); REQUIRES(sq(b-a) > 1e-4); REQUIRES(sq(c-a) > 1e-4); REQUIRES(sq(c-b) > 1e-4); D r0, r1; const V3 f = d2::Nearest_Origin3_PlaneTri3(r0, r1, a, b, c); eq3(f, r0*a + r1*b + (1-r0-r1)*c, "barycentric coordinates"); eq3(f.cross(n), V3(0,0,0), "along the normal"); }
