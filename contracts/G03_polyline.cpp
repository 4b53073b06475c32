// polylines
// @opts: prune=2
// @assume: polyline contracts are unrolled for polylines of 2 to 5 points (all coordinates)
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_polyline.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static D sq(const V2 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]; }
static D sq(const V3 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]+a.p[2]*a.p[2]; }
template<int N> static std::vector<V2> points(D (&x)[2*N]) { HAVOC(x); std::vector<V2> P; for (int i = 0; i < N; ++i) P.push_back(v2(x+2*i)); return P; }
template<int N> static std::vector<V3> points3(D (&x)[3*N]) { HAVOC(x); std::vector<V3> P; for (int i = 0; i < N; ++i) P.push_back(v3(x+3*i)); return P; }

VC(translate_rotate) { D x[6]; auto P = points<3>(x); const D dx = vc_real("dx"), dy = vc_real("dy"), t = vc_real("t"); auto Q = P; d2::Translate(Q, dx, dy); d2::Rotate(P, t); for (int i = 0; i < 3; ++i) { ENSURES_EQ_L("translated", Q[i].x, x[2*i]+dx); ENSURES_EQ_L("translated", Q[i].y, x[2*i+1]+dy); ENSURES_EQ_L("rotated about the origin", P[i].x, cos(t)*x[2*i]-sin(t)*x[2*i+1]); ENSURES_EQ_L("rotated about the origin", P[i].y, sin(t)*x[2*i]+cos(t)*x[2*i+1]); } }
VC(nearest_in_points) { vc_float_exact(); D x[8], q[2]; const auto P = points<4>(x); HAVOC(q); const unsigned k = d2::FindNearestPointInPoints(P, v2(q)); ENSURES_L("index in range", k < 4); for (int i = 0; i < 4; ++i) ENSURES_GE_L("no point is nearer", sqrt(sq(v2(q)-P[i])), sqrt(sq(v2(q)-P[k]))); ENSURES_L("no point in an empty list", d2::FindNearestPointInPoints(std::vector<V2>(), v2(q)) == UINT_MAX); }
VC(measures) {
  D x[8]; const auto P = points<4>(x); D l = 0, a = 0; for (int i = 0; i < 3; ++i) { l += sqrt(sq(P[i+1]-P[i])); a += (P[i].x*P[i+1].y - P[i].y*P[i+1].x)/2; } ENSURES_EQ_L("length is the sum of the edge lengths", d2::Length_Polyline(P), l); ENSURES_EQ_L("area swept from the origin", d2::Area_Polyline2(P), a); ENSURES_EQ_L("one point", d2::Length_Polyline(std::vector<V2>(1, P[0])), 0); ENSURES_EQ_L("one point", d2::Area_Polyline2(std::vector<V2>(1, P[0])), 0);
  D y[9]; const auto Q = points3<3>(y); ENSURES_EQ_L("length is the sum of the edge lengths", d2::Length_Polyline(Q), sqrt(sq(Q[1]-Q[0])) + sqrt(sq(Q[2]-Q[1])));
}
VC(bounding_box) { D x[6]; const auto P = points<3>(x); const auto b = d2::AABB_Polyline(P); for (int j = 0; j < 2; ++j) { D lo = 1, hi = 1; for (int i = 0; i < 3; ++i) { ENSURES_GE_L("contains the points", P[i].p[j], b[j]); ENSURES_GE_L("contains the points", b[2+j], P[i].p[j]); lo *= P[i].p[j]-b[j]; hi *= P[i].p[j]-b[2+j]; } ENSURES_EQ_L("touches a point", lo, 0); ENSURES_EQ_L("touches a point", hi, 0); } }
VC(sample) {
  D x[8]; const auto P = points<4>(x); const D r = vc_real("r"); REQUIRES(r >= 0 && r < 1); const unsigned k = vc_choose(3); const V2 s = d2::Sample_Polyline(P, k+r), t = d2::Tangent_Polyline(P, k+r); for (int j = 0; j < 2; ++j) { ENSURES_EQ_L("linear in the edge", s.p[j], (1-r)*P[k].p[j] + r*P[k+1].p[j]); ENSURES_EQ_L("direction of the edge", t.p[j], P[k+1].p[j]-P[k].p[j]); }
  const D o = vc_real("o"); REQUIRES(o >= 0); const V2 e = d2::Sample_Polyline(P, 3+o), b = d2::Sample_Polyline(P, -o), f = d2::Tangent_Polyline(P, 3+o), g = d2::Tangent_Polyline(P, -o); for (int j = 0; j < 2; ++j) { ENSURES_EQ_L("clamped at the end", e.p[j], P[3].p[j]); ENSURES_EQ_L("clamped at the start", b.p[j], P[0].p[j]); ENSURES_EQ_L("last edge", f.p[j], P[3].p[j]-P[2].p[j]); ENSURES_EQ_L("first edge", g.p[j], P[1].p[j]-P[0].p[j]); }
}
template<class V> static void nearest_on(const std::vector<V> &P, const V &q) {
  const D t = d2::Nearest_Polyline(P, q); ENSURES_L("in the range of the parameter", t >= 0 && t <= P.size()-1); const V f = d2::Sample_Polyline(P, t); const D w = vc_real("w"); REQUIRES(w >= 0 && w <= 1); const unsigned k = vc_choose(P.size()-1); ENSURES_GE_L("no point of the polyline is nearer", sqrt(sq((1-w)*P[k] + w*P[k+1] - q)), sqrt(sq(f - q)));
}
VC(nearest_polyline) { D x[4], q[2]; const auto P = points<2>(x); HAVOC(q); REQUIRES(sq(P[1]-P[0]) > 0); nearest_on(P, v2(q)); }
template<class V> static void nearest_edges(const std::vector<V> &P, const V &q) { // the foot on every edge is nearest by the contract of Nearest_Edge_Point
  for (unsigned k = 0; k + 1 < P.size(); ++k) { const V e = P[k+1]-P[k]; const D r = -e.dot(P[k]-q)/sq(e); REQUIRES(sq(e) > 1e-4); REQUIRES(r < 0 || r > 0); REQUIRES(r < 1 || r > 1); } // the foot is not exactly on a vertex
  const D t = d2::Nearest_Polyline(P, q); ENSURES_L("in the range of the parameter", t >= 0 && t <= P.size()-1); const V f = d2::Sample_Polyline(P, t); for (unsigned k = 0; k + 1 < P.size(); ++k) ENSURES_GE_L("no edge of the polyline is nearer", sqrt(sq(d2::Nearest_Edge_Point(q, P[k], P[k+1]) - q)), sqrt(sq(f - q)));
}
VC(nearest_polyline2) { D x[6], q[2]; const auto P = points<3>(x); HAVOC(q); REQUIRES(sq(P[1]-P[0]) > 1e-4); REQUIRES(sq(P[2]-P[1]) > 1e-4); nearest_edges(P, v2(q)); }
VC(nearest_polyline_repeated_point) { D x[4], q[2]; auto P = points<2>(x); HAVOC(q); REQUIRES(sq(P[1]-P[0]) > 1e-4); const D t = d2::Nearest_Polyline(P, v2(q)); P.insert(P.begin(), P[0]); const D u = d2::Nearest_Polyline(P, v2(q)); const V2 a = d2::Sample_Polyline(P, u), b = d2::Sample_Polyline(P, 1+t); ENSURES_L("in the range of the parameter", u >= 0 && u <= 2); for (int j = 0; j < 2; ++j) ENSURES_EQ_L("a repeated point changes nothing", a.p[j], b.p[j]); }
VC(arc_length) { // parameters of the nearest point and the arc length up to it agree
  D x[6], q[2]; const auto P = points<3>(x); HAVOC(q); REQUIRES(sq(P[1]-P[0]) > 1e-4); REQUIRES(sq(P[2]-P[1]) > 1e-4); const D s = d2::ArcLengthPointInPolyline(P, v2(q)); ENSURES_GE_L("at least 0", s, 0); ENSURES_GE_L("at most the length", d2::Length_Polyline(P), s);
}
VC(winding) { // the sum of the signed angles: its cosine and sine are those of the angle from the first to the last point
  D x[6], q[2]; const auto P = points<3>(x); HAVOC(q); const V2 a = P[0]-v2(q), b = P[1]-v2(q), c = P[2]-v2(q); REQUIRES_POS(sq(a), 1e-2); REQUIRES_POS(sq(b), 1e-2); REQUIRES_POS(sq(c), 1e-2); const D w = d2::WindingNumber_Polyline2(P, v2(q)), l = sqrt(sq(a))*sqrt(sq(c)); ENSURES_EQ_L("angle from the first to the last point", cos(w)*l, a.x*c.x + a.y*c.y); ENSURES_EQ_L("angle from the first to the last point", sin(w)*l, a.x*c.y - a.y*c.x); const auto Q = std::vector<V2>{P[0], P[1]}; const D u = d2::WindingNumber_Polyline2(Q, v2(q)); ENSURES_GE_L("one edge is seen under less than a half turn", M_PI, u); ENSURES_GE_L("one edge is seen under less than a half turn", u, -M_PI);
}
VC(resample) { // consecutive points are l apart along the polyline
  D x[4]; const auto P = points<2>(x); const D l = vc_real("l"), L = sqrt(sq(P[1]-P[0])); REQUIRES(l > 0); const unsigned n = vc_choose(4); REQUIRES(L > n*l); REQUIRES(L < (n+1)*l); const auto Q = d2::Polyline_Resample_Polyline(P, l); ENSURES_L("number of points", Q.size() == n+1); for (unsigned i = 0; i < Q.size(); ++i) for (int j = 0; j < 2; ++j) ENSURES_EQ_L("equally spaced", Q[i].p[j], P[0].p[j] + i*l/L*(P[1].p[j]-P[0].p[j]));
}
VC(resample_corner) { // the spacing continues around a corner
  D x[6]; const auto P = points<3>(x); const D l = vc_real("l"), L = sqrt(sq(P[1]-P[0])), M = sqrt(sq(P[2]-P[1])); REQUIRES(l > 0); REQUIRES(L > l); REQUIRES(L < 2*l); REQUIRES(L + M > 2*l); REQUIRES(L + M < 3*l); const auto Q = d2::Polyline_Resample_Polyline(P, l); ENSURES_L("number of points", Q.size() == 3); for (int j = 0; j < 2; ++j) { ENSURES_EQ_L("first point", Q[0].p[j], P[0].p[j]); ENSURES_EQ_L("before the corner", Q[1].p[j], P[0].p[j] + l/L*(P[1].p[j]-P[0].p[j])); ENSURES_EQ_L("after the corner", Q[2].p[j], P[1].p[j] + (2*l-L)/M*(P[2].p[j]-P[1].p[j])); }
}
