// triangles and tetrahedra: nearest points, projections, measures
// @opts: prune=2
// @stub: nearest_triangle_outside /Nearest_Edge3_Point3EPdPKdS2_S2_/ stub_edge3
// @stub: nearest_origin_triangle_outside /Nearest_Origin_EdgeI.*6ScalarE/ stub_origin_edge
// @bounded: nearest_triangle_outside_exec
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_plane.h"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tet.h"
#include "delfem2/geo_quad.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec3d V3;
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static void eq3(const V3 &a, const V3 &b, const char *l) { for (int i = 0; i < 3; ++i) ENSURES_EQ_L(l, a.p[i], b.p[i]); }
static D sq(const V3 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]+a.p[2]*a.p[2]; }
static D ip(const V3 &a, const V3 &b) { return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V3 cr(const V3 &a, const V3 &b) { return V3(a.p[1]*b.p[2]-a.p[2]*b.p[1], a.p[2]*b.p[0]-a.p[0]*b.p[2], a.p[0]*b.p[1]-a.p[1]*b.p[0]); }
static D det(const V3 &a, const V3 &b, const V3 &c) { return ip(a, cr(b, c)); }

// the query point is r0 q0 + r1 q1 + r2 q2 + h n: every point of space arises
VC(nearest_triangle_inside) {
  D q[9]; HAVOC(q); const D r0 = vc_real("r0"), r1 = vc_real("r1"), h = vc_real("h"), r2 = 1-r0-r1; const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a); REQUIRES(sqrt(sq(n))/2 > 1e-4); REQUIRES(r0 > 0 && r1 > 0 && r2 > 0);
  const V3 P = r0*a + r1*b + r2*c + h*n; D o[3], s0, s1; d2::Nearest_Triangle3_Point3(o, s0, s1, P.p, a.p, b.p, c.p); eq3(v3(o), r0*a + r1*b + r2*c, "foot of the perpendicular if it is inside"); ENSURES_EQ_L("barycentric coordinate", s0, r0); ENSURES_EQ_L("barycentric coordinate", s1, r1);
}
// contract of Nearest_Edge3_Point3 (discharged in G01_nearest: edge3_point_array with edge3_point)
static D vc_feet[3][3]; static int vc_nfeet;
extern "C" void stub_edge3(D *o, const D *, const D *s, const D *e) { const D l = vc_real("footparam"); REQUIRES(l >= 0 && l <= 1); for (int i = 0; i < 3; ++i) { o[i] = (1-l)*s[i] + l*e[i]; vc_feet[vc_nfeet%3][i] = o[i]; } ++vc_nfeet; }
struct TriQ { D q[9]; V3 a, b, c, P; };
static void outside(TriQ &t) {
  HAVOC(t.q); const D r0 = vc_real("r0"), r1 = vc_real("r1"), h = vc_real("h"), r2 = 1-r0-r1; t.a = v3(t.q); t.b = v3(t.q+3); t.c = v3(t.q+6); const V3 n = cr(t.b-t.a, t.c-t.a); REQUIRES(sqrt(sq(n))/2 > 1e-4); const unsigned k = vc_choose(3); if (k == 0) REQUIRES(r0 < -1e-3); if (k == 1) REQUIRES(r1 < -1e-3); if (k == 2) REQUIRES(r2 < -1e-3); REQUIRES(sq(t.b-t.a) > 1e-4); REQUIRES(sq(t.c-t.a) > 1e-4); REQUIRES(sq(t.c-t.b) > 1e-4); t.P = r0*t.a + r1*t.b + r2*t.c + h*n;
}
VC(nearest_triangle_outside) {
  TriQ t; outside(t); D o[3], s0, s1; vc_nfeet = 0; d2::Nearest_Triangle3_Point3(o, s0, s1, t.P.p, t.a.p, t.b.p, t.c.p); const V3 f = v3(o); eq3(f, s0*t.a + s1*t.b + (1-s0-s1)*t.c, "point of the triangle with the returned coordinates"); ENSURES_EQ_L("on the boundary", s0*s1*(1-s0-s1), 0); ENSURES_GE_L("inside", s0, 0); ENSURES_GE_L("inside", s1, 0); ENSURES_GE_L("inside", 1-s0-s1, 0); for (int k = 0; k < vc_nfeet; ++k) ENSURES_GE_L("no edge is nearer", sqrt(sq(v3(vc_feet[k])-t.P)), sqrt(sq(f-t.P)));
}
VC(nearest_triangle_outside_exec) {
  TriQ t; outside(t); D o[3], s0, s1; d2::Nearest_Triangle3_Point3(o, s0, s1, t.P.p, t.a.p, t.b.p, t.c.p); const V3 f = v3(o); const D w = vc_real("w"); REQUIRES(w >= 0 && w <= 1); const unsigned k = vc_choose(3); const V3 y = k == 0 ? (1-w)*t.a + w*t.b : k == 1 ? (1-w)*t.b + w*t.c : (1-w)*t.c + w*t.a; ENSURES_GE_L("no edge point is nearer", sqrt(sq(y-t.P)), sqrt(sq(f-t.P)));
}
VC(nearest_origin_triangle_inside) {
  D q[9]; HAVOC(q); const D r0 = vc_real("r0"), r1 = vc_real("r1"), h = vc_real("h"), r2 = 1-r0-r1; const V3 A = v3(q), B = v3(q+3), C = v3(q+6), n = cr(B-A, C-A); REQUIRES(sqrt(sq(n)) > 1e-4); REQUIRES(r0 > 0 && r1 > 0 && r2 > 0); const V3 P = r0*A + r1*B + r2*C + h*n; REQUIRES(sq(B-A) > 1e-4); REQUIRES(sq(C-A) > 1e-4); REQUIRES(sq(C-B) > 1e-4); D s0, s1; const V3 f = d2::Nearest_Origin3_Tri3(s0, s1, A-P, B-P, C-P); eq3(f, -h*n, "foot of the perpendicular if it is inside"); ENSURES_EQ_L("barycentric coordinate", s0, r0); ENSURES_EQ_L("barycentric coordinate", s1, r1);
}
// contract of Nearest_Origin_Edge (discharged in G01_nearest: edge_origin with edge3_point)
extern "C" V3 stub_origin_edge(D &t, const V3 &s, const V3 &e) { t = vc_real("footparam"); REQUIRES(t >= 0 && t <= 1); const V3 f = (1-t)*s + t*e; for (int i = 0; i < 3; ++i) vc_feet[vc_nfeet%3][i] = f.p[i]; ++vc_nfeet; return f; }
VC(nearest_origin_triangle_outside) {
  D q[9]; HAVOC(q); const D r0 = vc_real("r0"), r1 = vc_real("r1"), h = vc_real("h"), r2 = 1-r0-r1; const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a); REQUIRES(sqrt(sq(n)) > 1e-4); const unsigned k = vc_choose(3); if (k == 0) REQUIRES(r0 <= 0); if (k == 1) REQUIRES(r1 <= 0); if (k == 2) REQUIRES(r2 <= 0); REQUIRES(sq(b-a) > 1e-4); REQUIRES(sq(c-a) > 1e-4); REQUIRES(sq(c-b) > 1e-4); const V3 P = r0*a + r1*b + r2*c + h*n, A = a-P, B = b-P, C = c-P;
  D s0, s1; vc_nfeet = 0; const V3 f = d2::Nearest_Origin3_Tri3(s0, s1, A, B, C); eq3(f, s0*A + s1*B + (1-s0-s1)*C, "point of the triangle with the returned coordinates"); ENSURES_EQ_L("on the boundary", s0*s1*(1-s0-s1), 0); ENSURES_GE_L("inside", s0, 0); ENSURES_GE_L("inside", s1, 0); ENSURES_GE_L("inside", 1-s0-s1, 0);
  for (int k = 0; k < vc_nfeet; ++k) ENSURES_GE_L("no edge is nearer", sqrt(sq(v3(vc_feet[k]))), sqrt(sq(f)));
}
VC(project_on_triangle) { D q[9], p[3]; HAVOC(q); HAVOC(p); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), P = v3(p), n = cr(b-a, c-a); REQUIRES_POS(sq(n), 1e-2); const V3 f = d2::ProjectPointOnTriangle(P, a, b, c); ENSURES_EQ_L("in the plane", ip(f-a, n), 0); eq3(cr(f-P, n), V3(0,0,0), "along the normal"); }
VC(point_inside_triangle) {
  D q[9]; HAVOC(q); const D r0 = vc_real("r0"), r1 = vc_real("r1"), r2 = 1-r0-r1; const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a); REQUIRES(sq(n) > 1e-4); ENSURES_L("inside if and only if no barycentric coordinate is negative", d2::isPointInsideTriangle(r0*a + r1*b + r2*c, a, b, c) == (r0 >= 0 && r1 >= 0 && r2 >= 0));
}
VC(face_vertex) { D q[9], p[3]; HAVOC(q); HAVOC(p); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), P = v3(p), n = cr(b-a, c-a); REQUIRES_POS(sq(n), 1e-2); D w0, w1; const D d = d2::DistanceFaceVertex(a, b, c, P, w0, w1); const V3 f = w0*a + w1*b + (1-w0-w1)*c - P; ENSURES_EQ_L("perpendicular foot", ip(f, b-a), 0); ENSURES_EQ_L("perpendicular foot", ip(f, c-a), 0); ENSURES_EQ_L("distance to the foot", d*d, sq(f)); ENSURES_GE_L("distance is non-negative", d, 0); }
VC(ray_triangle) {
  D q[9], d[3]; HAVOC(q); HAVOC(d); const D r0 = vc_real("r0"), r1 = vc_real("r1"), t = vc_real("t"), r2 = 1-r0-r1; const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a), W = v3(d); REQUIRES_NONZERO(ip(n, W)); const V3 x = r0*a + r1*b + r2*c, o = x - t*W; D s0, s1; const bool h = d2::IntersectRay_Tri3(s0, s1, o, W, a, b, c, 0.01);
  ENSURES_EQ_L("barycentric coordinates of the crossing point", s0, r0); ENSURES_EQ_L("barycentric coordinates of the crossing point", s1, r1); ENSURES_L("hit if and only if no coordinate is below -eps", h == (s0 >= -0.01 && s1 >= -0.01 && 1-s0-s1 >= -0.01));
}
VC(ray_triangle_inside) {
  D q[9], d[3]; HAVOC(q); HAVOC(d); const D r0 = vc_real("r0"), r1 = vc_real("r1"), t = vc_real("t"), r2 = 1-r0-r1; const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a), W = v3(d); REQUIRES(sq(n) > 1e-4); REQUIRES(ip(n, W) > 1e-4 || ip(n, W) < -1e-4); const V3 x = r0*a + r1*b + r2*c, o = x - t*W; V3 y; const bool h = d2::isRayIntersectingTriangle(o, o + W, a, b, c, y);
  ENSURES_L("hit if and only if the crossing is ahead and inside", h == (t >= 0 && r0 >= 0 && r1 >= 0 && r2 >= 0)); if (h) eq3(y, x, "crossing point");
}
VC(ray_triangle_parallel) { D q[9], o[3]; HAVOC(q); HAVOC(o); const D u = vc_real("u"), v = vc_real("v"); const V3 a = v3(q), b = v3(q+3), c = v3(q+6); V3 y; const V3 n = cr(b-a, c-a); (void)n; const bool h = d2::isRayIntersectingTriangle(v3(o), v3(o) + u*(b-a) + v*(c-a), a, b, c, y); ENSURES_L("a ray parallel to the plane misses", !h); }
VC(plane_ray_coordinates) { D q[9], s[3], d[3]; HAVOC(q); HAVOC(s); HAVOC(d); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a), S = v3(s), W = v3(d); REQUIRES(ip(n, W) > 1e-4 || ip(n, W) < -1e-4); V3 y; D r0, r1, r2; const bool h = d2::Intersection_Plane3_Line3(y, r0, r1, r2, 0.001, S, W, a, b, c); if (!h) return; ENSURES_EQ_L("coordinates sum to one", r0 + r1 + r2, 1); eq3(y, r0*a + r1*b + r2*c, "point with the returned coordinates"); eq3(cr(y-S, W), V3(0,0,0), "on the line"); ENSURES_L("inside", r0 > 0.001 && r1 > 0.001 && r2 > 0.001); }
// measures
VC(triangle_measures) {
  D q[9]; HAVOC(q); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a); REQUIRES_POS(sq(n), 1e-2); const D *A = q, *B = q+3, *C = q+6; const D Q0[3] = {q[0],q[1],q[2]}, Q1[3] = {q[3],q[4],q[5]}, Q2[3] = {q[6],q[7],q[8]}; const D ar = d2::Area_Tri3(a, b, c); ENSURES_EQ_L("area", ar, sqrt(sq(n))/2); ENSURES_EQ_L("area", (d2::Area_Tri3<const D *, D>(A, B, C)), ar); ENSURES_EQ_L("squared area", d2::SquareTriArea(a, b, c), sq(n)/4); const std::vector<V3> P = {c, V3(1,1,1), a, b}; ENSURES_EQ_L("area by index", (d2::Area_Tri3<V3, D>(2, 3, 0, P)), ar);
  V3 m; d2::Normal_Tri3(m, a, b, c); eq3(m, n, "normal"); eq3(V3(d2::Normal_Tri3(a, b, c)), n, "normal"); D u[3]; d2::Normal_Tri3(u, A, B, C); eq3(v3(u), n, "normal"); V3 w; d2::UnitNormal_Tri3(w, a, b, c); const D l = sqrt(sq(n)); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("unit normal", w.p[i], n.p[i]/l); const V3 w2 = d2::UnitNormal_Tri3(a, b, c); eq3(w2, w, "unit normal"); D g; d2::UnitNormalAreaTri3(u, g, Q0, Q1, Q2); eq3(v3(u), w, "unit normal"); ENSURES_EQ_L("area", g, ar);
}
VC(triangle_of_mesh) { D x[15]; HAVOC(x); const std::vector<D> X(x, x+15); const std::vector<unsigned> T = {4, 1, 3, 2, 0, 4}; for (unsigned t = 0; t < 2; ++t) { const V3 a = v3(x+T[t*3]*3), b = v3(x+T[t*3+1]*3), c = v3(x+T[t*3+2]*3); const auto g = d2::CG_Tri3(t, T, X); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("center of gravity", g[i], (a.p[i]+b.p[i]+c.p[i])/3); eq3(V3(d2::Normal_Tri3(t, T, X)), cr(b-a, c-a), "normal"); } }
VC(triangle_inertia) { // about the origin: integral of |x|^2 I - x x^T
  D q[9]; HAVOC(q); const V3 P[3] = {v3(q), v3(q+3), v3(q+6)}; const D ar = sqrt(sq(cr(P[1]-P[0], P[2]-P[0])))/2, vol = det(P[0], P[1], P[2])/6; const auto I = d2::Mat3_IrotTri(P[0], P[1], P[2]); const auto J = d2::Mat3_IrotTriSolid(P[0], P[1], P[2]);
  D M[9]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D s = 0; for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l) s += (k == l ? 2 : 1)*P[k].p[i]*P[l].p[j]; M[i*3+j] = s; } const D tr = M[0]+M[4]+M[8];
  for (int i = 0; i < 9; ++i) { ENSURES_EQ_L("moment of inertia of a triangle", I[i], ar/12*((i%4 ? 0 : tr) - M[i])); ENSURES_EQ_L("moment of inertia of a tetrahedron with a vertex at the origin", J[i], vol/20*((i%4 ? 0 : tr) - M[i])); }
}
VC(solid_angle) { // tangent of the half solid angle (van Oosterom and Strackee); in [0, 4 pi)
  D a[3], b[3], c[3]; HAVOC(a); HAVOC(b); HAVOC(c); const V3 A = v3(a), B = v3(b), C = v3(c); const D x = sqrt(sq(A)), y = sqrt(sq(B)), z = sqrt(sq(C)), de = det(A, B, C), nu = x*y*z + ip(A, B)*z + ip(B, C)*x + ip(C, A)*y; REQUIRES(de > 1e-3 || de < -1e-3); const D w = d2::SolidAngleTri(A, B, C), r = sqrt(nu*nu + de*de);
  ENSURES_EQ_L("sine of the half solid angle", sin(w/2), de/r); ENSURES_EQ_L("cosine of the half solid angle", cos(w/2), nu/r); ENSURES_GE_L("not negative", w, 0); ENSURES_GE_L("at most the full sphere", 4*M_PI, w);
}
VC(tet_measures) {
  D q[12]; HAVOC(q); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), e = v3(q+9), n = cr(b-a, c-a); REQUIRES_POS(sq(n), 1e-2); const D v = det(b-a, c-a, e-a)/6; ENSURES_EQ_L("volume", d2::Volume_Tet(a, b, c, e), v); const D *A = q, *B = q+3, *C = q+6, *E = q+9; ENSURES_EQ_L("volume", (d2::Volume_Tet<const D *, D>(A, B, C, E)), v); const std::vector<V3> P = {c, e, a, b}; ENSURES_EQ_L("volume by index", (d2::Volume_Tet<V3, D>(2, 3, 0, 1, P)), v); ENSURES_EQ_L("volume with a vertex at the origin", d2::Volume_OrgTet(b, c, e), det(b, c, e)/6);
  ENSURES_EQ_L("height", d2::Height_Tet(a, b, c, e), det(e-a, b-a, c-a)/sqrt(sq(n))); const auto F = d2::Mat3_3BasesOfTet(a, b, c, e); for (int i = 0; i < 3; ++i) { ENSURES_EQ_L("basis", F[i*3], b.p[i]-a.p[i]); ENSURES_EQ_L("basis", F[i*3+1], c.p[i]-a.p[i]); ENSURES_EQ_L("basis", F[i*3+2], e.p[i]-a.p[i]); }
}
VC(tet_barycentric) { D q[12]; HAVOC(q); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), e = v3(q+9); REQUIRES_NONZERO(det(b-a, c-a, e-a)); D r0, r1, r2; const bool k = d2::barycentricCoord_Origin_Tet(r0, r1, r2, a, b, c, e); ENSURES_L("found", k); eq3(r0*a + r1*b + r2*c + (1-r0-r1-r2)*e, V3(0,0,0), "the origin has the returned coordinates"); }
VC(tet_edges) { D q[12]; HAVOC(q); const V3 P[4] = {v3(q), v3(q+3), v3(q+6), v3(q+9)}; const bool lo = vc_choose(2); const D s = lo ? d2::ShortestSquaredEdgeLengthOfTet(P[0], P[1], P[2], P[3]) : d2::LongestSquaredEdgeLengthOfTet(P[0], P[1], P[2], P[3]); D any = 1; for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) { const D l = sq(P[i]-P[j]); if (lo) ENSURES_GE_L("no edge is shorter", l, s); else ENSURES_GE_L("no edge is longer", s, l); any *= l - s; } ENSURES_EQ_L("length of an edge", any, 0); }
VC(tet_deformation) {
  D q[12], p[12], dF[4][3]; HAVOC(q); HAVOC(p); const V3 Q[4] = {v3(q), v3(q+3), v3(q+6), v3(q+9)}, P[4] = {v3(p), v3(p+3), v3(p+6), v3(p+9)}; REQUIRES_NONZERO(det(Q[1]-Q[0], Q[2]-Q[0], Q[3]-Q[0])); const auto F = d2::DeformationGradientOfTet(Q[0], Q[1], Q[2], Q[3], P[0], P[1], P[2], P[3]); d2::DiffDeformationGradientOfTet(dF, Q[0], Q[1], Q[2], Q[3]);
  for (int k = 1; k < 4; ++k) for (int i = 0; i < 3; ++i) ENSURES_EQ_L("maps rest edges to deformed edges", F[i*3]*(Q[k]-Q[0]).p[0] + F[i*3+1]*(Q[k]-Q[0]).p[1] + F[i*3+2]*(Q[k]-Q[0]).p[2], (P[k]-P[0]).p[i]);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { D s = 0; for (int k = 0; k < 4; ++k) s += P[k].p[i]*dF[k][j]; ENSURES_EQ_L("derivative with respect to the nodes", s, F[i*3+j]); }
}
