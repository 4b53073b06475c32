// 2D polygons
// @bounded: boundary_quad_run boundary_hole_run
// @opts: prune=2
// @assume: polygons are unrolled for 3 to 5 vertices (all coordinates), loops for the enumerated index lists
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/geo_polygon2.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2;
static D sq(const V2 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]; }
static D cr(const V2 &a, const V2 &b) { return a.p[0]*b.p[1]-a.p[1]*b.p[0]; }
static std::vector<V2> points(int n) { std::vector<V2> P; for (int i = 0; i < n; ++i) { const D x = vc_real("x"), y = vc_real("y"); P.push_back(V2(x, y)); } return P; }

// the polygon is the signed sum of the triangles (o, p_i, p_i+1) for any point o
VC(measures) {
  const int n = 3 + (int)vc_choose(3); const auto P = points(n); const D ox = vc_real("ox"), oy = vc_real("oy"); const V2 o(ox, oy); D len = 0, A = 0, mx = 0, my = 0, I = 0; const D px = vc_real("px"), py = vc_real("py"); const V2 pv(px, py);
  for (int i = 0; i < n; ++i) {
    const V2 a = P[i], b = P[(i+1)%n]; len += sqrt(sq(b-a)); const D t = cr(a-o, b-o)/2; A += t; mx += t*(a.p[0]+b.p[0]+o.p[0])/3; my += t*(a.p[1]+b.p[1]+o.p[1])/3;
    const V2 u = a-pv, v = b-pv, w = o-pv; const V2 s = u+v+w; I += t/12*(sq(u)+sq(v)+sq(w)+sq(s)); // integral of |x-pv|^2 over a triangle
  }
  ENSURES_EQ_L("length of the boundary", d2::Length_Polygon(P), len); ENSURES_EQ_L("signed area", d2::Area_Polygon(P), A); ENSURES_EQ_L("polar moment about the pivot", d2::RotationalMomentPolar_Polygon2(P, pv), I);
  REQUIRES_NONZERO(A); V2 c; D ar; d2::CgArea_Polygon(c, ar, P); ENSURES_EQ_L("signed area", ar, A); ENSURES_EQ_L("center of gravity", c.p[0], mx/A); ENSURES_EQ_L("center of gravity", c.p[1], my/A);
}
VC(second_moment) {
  const auto P = points(3); D A = 0, mx = 0, my = 0; for (int i = 0; i < 3; ++i) { const V2 a = P[i], b = P[(i+1)%3]; const D t = cr(a, b)/2; A += t; mx += t*(a.p[0]+b.p[0])/3; my += t*(a.p[1]+b.p[1])/3; }
  REQUIRES_NONZERO(A); V2 c, u, v; D ar, I1, I2; d2::SecondMomentOfArea_Polygon(c, ar, u, I1, v, I2, P); ENSURES_EQ_L("signed area", ar, A); ENSURES_EQ_L("center of gravity", c.p[0], mx/A); ENSURES_EQ_L("center of gravity", c.p[1], my/A);
  // second moments about the centroid of a triangle: A/12 sum (p_i - c)(p_i - c)^T
  D xx = 0, xy = 0, yy = 0; for (int i = 0; i < 3; ++i) { const D x = P[i].p[0]-mx/A, y = P[i].p[1]-my/A; xx += A/12*x*x; xy += A/12*x*y; yy += A/12*y*y; }
  ENSURES_EQ_L("principal axes are orthonormal", sq(u), 1); ENSURES_EQ_L("principal axes are orthonormal", sq(v), 1); ENSURES_EQ_L("principal axes are orthonormal", u.p[0]*v.p[0]+u.p[1]*v.p[1], 0);
  REQUIRES(fabs(yy-xx) + fabs(xy) > 1e-10); // otherwise all axes are principal up to the threshold of the code
  ENSURES_EQ_L("moment about the first axis", yy*u.p[0]*u.p[0] + xx*u.p[1]*u.p[1] - 2*xy*u.p[0]*u.p[1], I1); ENSURES_EQ_L("moment about the second axis", yy*v.p[0]*v.p[0] + xx*v.p[1]*v.p[1] - 2*xy*v.p[0]*v.p[1], I2); ENSURES_GE_L("largest first", I1, I2);
  ENSURES_EQ_L("the axes are principal", yy*u.p[0]*v.p[0] + xx*u.p[1]*v.p[1] - xy*(u.p[0]*v.p[1]+u.p[1]*v.p[0]), 0);
}
VC(second_moment_isotropic) { // regular: square of any size and orientation
  const D x = vc_real("x"), y = vc_real("y"), a = vc_real("a"), b = vc_real("b"); const D s = a*a+b*b; REQUIRES_POS(s, 1e-2); const std::vector<V2> P = {V2(x+a, y+b), V2(x-b, y+a), V2(x-a, y-b), V2(x+b, y-a)}; V2 c, u, v; D ar, I1, I2; d2::SecondMomentOfArea_Polygon(c, ar, u, I1, v, I2, P);
  ENSURES_EQ_L("area", ar, 2*s); ENSURES_EQ_L("center of gravity", c.p[0], x); ENSURES_EQ_L("center of gravity", c.p[1], y); ENSURES_EQ_L("moment", I1, s*s/3); ENSURES_EQ_L("moment", I2, s*s/3); ENSURES_EQ_L("orthonormal axes", sq(u), 1); ENSURES_EQ_L("orthonormal axes", sq(v), 1); ENSURES_EQ_L("orthonormal axes", u.p[0]*v.p[0]+u.p[1]*v.p[1], 0);
}
VC(invert) { const int n = 1 + (int)vc_choose(4); const auto P = points(n); const auto Q = d2::Polygon_Invert(P); ENSURES_L("same number of points", (int)Q.size() == n); for (int i = 0; i < n; ++i) ENSURES_L("reverse order", Q[i].p[0] == P[n-1-i].p[0] && Q[i].p[1] == P[n-1-i].p[1]); const auto X = d2::XY_Polygon(P); ENSURES_L("two coordinates per point", (int)X.size() == 2*n); for (int i = 0; i < n; ++i) ENSURES_L("coordinates in order", X[2*i] == P[i].p[0] && X[2*i+1] == P[i].p[1]); }
VC(join) {
  const auto P = points(7); std::vector<std::vector<D>> L(3); const int e[4] = {0, 3, 3, 7}; for (int k = 0; k < 3; ++k) for (int i = e[k]; i < e[k+1]; ++i) { L[k].push_back(P[i].p[0]); L[k].push_back(P[i].p[1]); }
  std::vector<int> I, ind; std::vector<V2> X; d2::JArray_FromVecVec_XY(ind, I, X, L); ENSURES_L("sizes", ind.size() == 4 && I.size() == 7 && X.size() == 7); for (int k = 0; k < 4; ++k) ENSURES_L("start of the loops", ind[k] == e[k]); for (int i = 0; i < 7; ++i) ENSURES_L("points in order", I[i] == i && X[i].p[0] == P[i].p[0] && X[i].p[1] == P[i].p[1]);
}
VC(orientation) { // outer loop counter-clockwise, holes clockwise, order kept or reversed as a whole
  const auto P = points(7); const std::vector<int> ind = {0, 3, 7}, old = {6, 1, 4, 0, 2, 5, 3}; std::vector<int> I = old; D a[2]; for (int k = 0; k < 2; ++k) { a[k] = 0; const int n = ind[k+1]-ind[k]; for (int i = 0; i < n; ++i) a[k] += cr(P[old[ind[k]+i]], P[old[ind[k]+(i+1)%n]]); REQUIRES(a[k] < 0 || a[k] > 0); }
  d2::FixLoopOrientation(I, ind, P); ENSURES_L("size kept", I.size() == 7); for (int k = 0; k < 2; ++k) { const bool keep = (a[k] > 0) == (k == 0); for (int i = ind[k]; i < ind[k+1]; ++i) ENSURES_L("loop kept if well oriented, reversed otherwise", I[i] == old[keep ? i : ind[k]+ind[k+1]-1-i]); }
}
VC(resample_loop) { // every edge is split evenly into the fewest parts that are not longer than the limit
  auto P = points(3); const auto Q = P; const D h = vc_real("h"); REQUIRES(h > 1e-3); const std::vector<int> old = {1, 2, 0}; std::vector<int> ind = {0, 3}, I = old; int m[3], tot = 0; for (int i = 0; i < 3; ++i) { m[i] = (int)vc_choose(3); const D l = sqrt(sq(Q[old[(i+1)%3]]-Q[old[i]])); REQUIRES(l/h >= m[i]); REQUIRES(l/h < m[i]+1); tot += m[i]; }
  d2::ResamplingLoop(ind, I, P, h); ENSURES_L("sizes", ind.size() == 2 && ind[0] == 0 && ind[1] == 3+tot && (int)I.size() == 3+tot && (int)P.size() == 3+tot); int k = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j <= m[i]; ++j, ++k) { const V2 a = Q[old[i]], b = Q[old[(i+1)%3]]; if (j == 0) ENSURES_L("vertices stay", I[k] == old[i]); ENSURES_EQ_L("even spacing along the edge", P[I[k]].p[0], a.p[0] + (b.p[0]-a.p[0])*j/(m[i]+1)); ENSURES_EQ_L("even spacing along the edge", P[I[k]].p[1], a.p[1] + (b.p[1]-a.p[1])*j/(m[i]+1)); }
}
VC(resample_two_loops) {
  auto P = points(4); const auto Q = P; const D h = vc_real("h"); REQUIRES(h > 1e-3); const std::vector<int> old = {3, 0, 2, 1}; std::vector<int> ind = {0, 2, 4}, I = old; const D l0 = sqrt(sq(Q[3]-Q[0])), l1 = sqrt(sq(Q[2]-Q[1])); REQUIRES(l0/h >= 0); REQUIRES(l0/h < 1); REQUIRES(l1/h >= 1); REQUIRES(l1/h < 2); d2::ResamplingLoop(ind, I, P, h);
  ENSURES_L("loops stay apart", ind[1] == 2 && ind[2] == 6 && I.size() == 6 && P.size() == 6 && I[0] == 3 && I[1] == 0 && I[2] == 2 && I[4] == 1); for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) ENSURES_EQ_L("midpoint", P[I[3+2*k]].p[j], (Q[1].p[j]+Q[2].p[j])/2); for (int i = 0; i < 4; ++i) ENSURES_L("points kept", P[i].p[0] == Q[i].p[0] && P[i].p[1] == Q[i].p[1]);
}
VC(resample_polygon) { // along a square-free closed path: consecutive points are l apart along the boundary
  const auto P = points(2); const D l = vc_real("l"), L = sqrt(sq(P[1]-P[0])); REQUIRES(l > 1e-3); const int n = (int)vc_choose(3); REQUIRES(L > n*l); REQUIRES(L < (n+1)*l); REQUIRES(2*L < (2*n+1)*l || 2*L > (2*n+1)*l); const auto Q = d2::Polygon_Resample_Polygon(P, l);
  const int m = 2*L < (2*n+1)*l ? 2*n : 2*n+1; ENSURES_L("as many points as fit", (int)Q.size() == m+1); for (int k = 0; k <= m; ++k) for (int j = 0; j < 2; ++j) { const D s = k*l/L; ENSURES_EQ_L("at arc length k l", Q[k].p[j], k <= n ? P[0].p[j] + s*(P[1].p[j]-P[0].p[j]) : P[1].p[j] + (s-1)*(P[0].p[j]-P[1].p[j])); }
}
VC(spline) { // closed uniform quadratic B-spline, five samples per span
  const int n = 3 + (int)vc_choose(2); const auto P = points(n); std::vector<D> C, O; for (auto &p : P) { C.push_back(p.p[0]); C.push_back(p.p[1]); } d2::makeSplineLoop(C, O); ENSURES_L("five points per control point", (int)O.size() == n*10); for (int i = 0; i < n; ++i) for (int k = 0; k < 5; ++k) for (int j = 0; j < 2; ++j) { const D s = k/5.0; const D a = P[i].p[j], b = P[(i+1)%n].p[j], c = P[(i+2)%n].p[j]; // from the midpoint of a, b to the midpoint of b, c
    const D m0 = (a+b)/2, m1 = (b+c)/2; ENSURES_EQ_L("on the curve", O[(i*5+k)*2+j], (1-s)*(1-s)*m0 + 2*s*(1-s)*b + s*s*m1); }
}
// vertices relative to the query point in the frame of the first direction that is tried (all generic positions: the ray is not within 1/1000 of a vertex)
struct Rel { std::vector<V2> P; D co[2], b[4], a[4]; };
static void relative(Rel &R, int n) { const D cx = vc_real("cx"), cy = vc_real("cy"), u = cos(23.0), v = sin(23.0); R.co[0] = cx; R.co[1] = cy; R.P = {V2(9, 9)}; for (int i = 0; i < n; ++i) { R.a[i] = vc_real("a"); R.b[i] = vc_real("b"); R.P.push_back(V2(cx + u*R.a[i] - v*R.b[i], cy + v*R.a[i] + u*R.b[i])); } }
static void generic(const Rel &R, int i, int j) { const D d = R.b[i]-R.b[j], r = R.b[i]/d, q = -R.b[j]/d; REQUIRES(d > 1e-3 || d < -1e-3); REQUIRES(r > 0.001 || r < -0.001); REQUIRES(q > 0.001 || q < -0.001); }
VC(include_triangle) {
  Rel R; relative(R, 3); const D *a = R.a, *b = R.b; const unsigned k = vc_choose(3), l = (k+1)%3, m = (k+2)%3; const D s = vc_choose(2) ? 1 : -1; // vertex k is on one side of the line, the others on the other side
  REQUIRES(s*b[k] > 1e-6); REQUIRES(s*b[l] < -1e-6); REQUIRES(s*b[m] < -1e-6); for (int i = 0; i < 3; ++i) generic(R, i, (i+1)%3);
  const D x = vc_choose(2) ? 1 : -1, y = vc_choose(2) ? 1 : -1; const D ckl = x*(a[k]*b[l]-a[l]*b[k]), cmk = y*(a[m]*b[k]-a[k]*b[m]), clm = a[l]*b[m]-a[m]*b[l]; REQUIRES(ckl > 1e-6); REQUIRES(cmk > 1e-6);
  ENSURES_L("inside the triangle", d2::IsInclude_Loop(R.co, 1, 4, R.P) == (x == y)); if (x == y) ENSURES_L("x == y: the three triangles with the query point have the same orientation", x*clm > 0);
}
VC(include_triangle_aside) { // all vertices on one side of the line through the query point
  Rel R; relative(R, 3); const D *b = R.b; const D s = vc_choose(2) ? 1 : -1; for (int i = 0; i < 3; ++i) { REQUIRES(s*b[i] > 1e-6); generic(R, i, (i+1)%3); } ENSURES_L("outside", !d2::IsInclude_Loop(R.co, 1, 4, R.P));
}
VC(include_quad) { // parity of the two triangles the diagonal makes, also for non-convex and self-crossing quads
  Rel R; relative(R, 4); for (int i = 0; i < 4; ++i) generic(R, i, (i+1)%4); generic(R, 0, 2); std::vector<V2> T = {R.P[1], R.P[2], R.P[3], R.P[1], R.P[3], R.P[4]}; const bool q = d2::IsInclude_Loop(R.co, 1, 5, R.P), t0 = d2::IsInclude_Loop(R.co, 0, 3, T), t1 = d2::IsInclude_Loop(R.co, 3, 6, T); ENSURES_L("exclusive or of the triangles", q == (t0 != t1));
}
static bool crossing(const V2 &a, const V2 &b, const V2 &c, const V2 &d) { const D p = cr(b-a, c-a), q = cr(b-a, d-a), r = cr(d-c, a-c), s = cr(d-c, b-c); REQUIRES(fabs(p) > 1e-4 && fabs(q) > 1e-4 && fabs(r) > 1e-4 && fabs(s) > 1e-4); return p*q < 0 && r*s < 0; }
static bool within(const V2 &x, const V2 &a, const V2 &b, const V2 &c) { const D p = cr(a-x, b-x), q = cr(b-x, c-x), r = cr(c-x, a-x); REQUIRES(fabs(p) > 1e-4 && fabs(q) > 1e-4 && fabs(r) > 1e-4); const D l = sq(b-a)+sq(c-b)+sq(a-c); REQUIRES(sq(a-x) > 4e-4*l && sq(b-x) > 4e-4*l && sq(c-x) > 4e-4*l); /* closer to a vertex than 1/1000 of an edge every direction is rejected */ return (p > 0 && q > 0 && r > 0) || (p < 0 && q < 0 && r < 0); }
VC(boundary_quad_run) { const auto P = points(4); const bool c = crossing(P[0], P[1], P[2], P[3]) || crossing(P[1], P[2], P[3], P[0]); ENSURES_L("valid if and only if no two edges cross", d2::CheckInputBoundaryForTriangulation({0, 4}, P) == !c); }
VC(boundary_hole_run) { // triangle with up to two triangular holes
  const int n = 1 + (int)vc_choose(2); std::vector<V2> P = points(3); const int k = (int)vc_choose(4); for (int h = 0; h < n; ++h) for (int i = 0; i < 3; ++i) { const D r0 = vc_real("r0"), r1 = vc_real("r1"); const D a = r0*r0 + 0.01, b = r1*r1 + 0.01, c = (k == 0 ? -0.3 : 0.05); P.push_back((1/(a+b+c))*(a*P[h] + b*P[(h+1)%3] + c*P[(h+2)%3])); } // mostly inside, near different corners
  std::vector<int> ind; bool ok = true; for (int h = 0; h <= n+1; ++h) ind.push_back(3*h); for (int f = 0; f <= n; ++f) for (int g = f+1; g <= n; ++g) for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) if (crossing(P[3*f+i], P[3*f+(i+1)%3], P[3*g+j], P[3*g+(j+1)%3])) ok = false; if (within(P[3*f+i], P[3*g], P[3*g+1], P[3*g+2])) ok = false; if (within(P[3*g+i], P[3*f], P[3*f+1], P[3*f+2]) != (f == 0)) ok = false; }
  ENSURES_L("valid if and only if the holes are inside, apart and cross nothing", d2::CheckInputBoundaryForTriangulation(ind, P) == ok);
}
VC(boundary_short_loop) { const auto P = points(5); ENSURES_L("loops of less than three points are rejected", !d2::CheckInputBoundaryForTriangulation({0, 3, 5}, P) && !d2::CheckInputBoundaryForTriangulation({0, 2}, P)); }
