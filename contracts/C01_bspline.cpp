// B-spline and Catmull-Rom curves
// @opts: prune=1
// @assume: numbers of segments are enumerated (to 7); the knots a segment sees depend only on min(idx,3) and min(N-idx,3), all of which occur
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
#include "delfem2/geo_curve_ndegree.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
// Cox-de Boor recursion; the span that contains t is given, so the recursion has no comparison
static D basis(const D *knot, int i, int deg, int span, D t) {
  if (deg == 0) return i == span ? 1 : 0;
  D s = 0; const D a = knot[i+deg] - knot[i], b = knot[i+deg+1] - knot[i+1];
  if (i <= span && span < i+deg && a != 0) s += (t - knot[i])/a*basis(knot, i, deg-1, span, t);
  if (i+1 <= span && span <= i+deg && b != 0) s += (knot[i+deg+1] - t)/b*basis(knot, i+1, deg-1, span, t);
  return s; }
static void open_uniform(D *knot, int deg, int N) { for (int i = 0; i < N + 2*deg + 1; ++i) { int k = i - deg; knot[i] = k < 0 ? 0 : k > N ? N : k; } }

VC(bspline_quadratic_coeff) {
  const int N = 1 + (int)vc_choose(7), idx = (int)vc_choose(N); const D s = vc_real("s"); REQUIRES(s >= 0); REQUIRES(s <= 1);
  D knot[16], c[3][3]; open_uniform(knot, 2, N); d2::CoefficientsOfOpenUniformBSpline_Quadratic(c, idx, N); D sum = 0;
  for (int i = 0; i < 3; ++i) { const D w = c[i][0] + c[i][1]*s + c[i][2]*s*s; sum += w; ENSURES_EQ_L("quadratic weights follow the Cox-de Boor recursion", w, basis(knot, idx+i, 2, idx+2, idx+s)); ENSURES_GE_L("weights are not negative", w, 0); }
  ENSURES_EQ_L("weights sum to one", sum, 1);
}
VC(bspline_cubic_coeff) {
  const int N = 1 + (int)vc_choose(7), idx = (int)vc_choose(N); const D s = vc_real("s"); REQUIRES(s >= 0); REQUIRES(s <= 1);
  D knot[16], c[4][4]; open_uniform(knot, 3, N); d2::CoefficientsOfOpenUniformCubicBSpline(c, idx, N); D sum = 0;
  for (int i = 0; i < 4; ++i) { const D w = c[i][0] + c[i][1]*s + c[i][2]*s*s + c[i][3]*s*s*s; sum += w; ENSURES_EQ_L("cubic weights follow the Cox-de Boor recursion", w, basis(knot, idx+i, 3, idx+3, idx+s)); ENSURES_GE_L("weights are not negative", w, 0); }
  ENSURES_EQ_L("weights sum to one", sum, 1);
}
// neighbouring segments meet with equal value and derivatives (C1 quadratic, C2 cubic); the ends are interpolated
VC(bspline_continuity) {
  const int N = 2 + (int)vc_choose(6), k = (int)vc_choose(N-1); D p[12]; HAVOC(p);
  D a[3][3], b[3][3]; d2::CoefficientsOfOpenUniformBSpline_Quadratic(a, k, N); d2::CoefficientsOfOpenUniformBSpline_Quadratic(b, k+1, N);
  D l[2] = {0, 0}, r[2] = {0, 0}; for (int i = 0; i < 3; ++i) { l[0] += p[k+i]*(a[i][0]+a[i][1]+a[i][2]); l[1] += p[k+i]*(a[i][1]+2*a[i][2]); r[0] += p[k+1+i]*b[i][0]; r[1] += p[k+1+i]*b[i][1]; }
  vc_same<2>(l, r, "quadratic segments join with a common tangent");
  D c[4][4], d[4][4]; d2::CoefficientsOfOpenUniformCubicBSpline(c, k, N); d2::CoefficientsOfOpenUniformCubicBSpline(d, k+1, N); D x[3] = {0, 0, 0}, y[3] = {0, 0, 0};
  for (int i = 0; i < 4; ++i) { x[0] += p[k+i]*(c[i][0]+c[i][1]+c[i][2]+c[i][3]); x[1] += p[k+i]*(c[i][1]+2*c[i][2]+3*c[i][3]); x[2] += p[k+i]*(2*c[i][2]+6*c[i][3]); y[0] += p[k+1+i]*d[i][0]; y[1] += p[k+1+i]*d[i][1]; y[2] += p[k+1+i]*2*d[i][2]; }
  vc_same<3>(x, y, "cubic segments join with common first and second derivatives");
}
VC(bspline_ends) {
  const int N = 1 + (int)vc_choose(5); std::vector<V2> q(N+2), c(N+3); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); for (auto &v : c) v = V2(vc_real("x"), vc_real("y"));
  for (int k = 0; k < 2; ++k) { ENSURES_EQ_L("starts at the first control point", d2::Sample_QuadraticBsplineCurve<V2>(0, q)[k], q[0][k]); ENSURES_EQ_L("ends at the last control point", d2::Sample_QuadraticBsplineCurve<V2>(N, q)[k], q.back()[k]);
    ENSURES_EQ_L("starts at the first control point", d2::Sample_CubicBsplineCurve<V2>(0, c)[k], c[0][k]); ENSURES_EQ_L("ends at the last control point", d2::Sample_CubicBsplineCurve<V2>(N, c)[k], c.back()[k]); }
}
static int span_of(D t, int N) { int i = 0; while (i < N-1 && t >= i+1) ++i; return i; }
VC(bspline_quadratic_sample) {
  const int N = 1 + (int)vc_choose(4); std::vector<V3> q(N+2); for (auto &v : q) v = V3(vc_real("x"), vc_real("y"), vc_real("z")); const D t = vc_real("t"); REQUIRES(t >= 0); REQUIRES(t <= N);
  D knot[16]; open_uniform(knot, 2, N); const int s = span_of(t, N); V3 p = d2::Sample_QuadraticBsplineCurve<V3>(t, q), g = d2::Tangent_QuadraticBsplineCurve<V3>(t, q);
  for (int k = 0; k < 3; ++k) { D e = 0; for (int i = 0; i < N+2; ++i) e += q[i][k]*basis(knot, i, 2, s+2, t); ENSURES_EQ_L("quadratic curve is the weighted sum of the control points", p[k], e); ENSURES_EQ_L("tangent is the derivative", g[k], VC_DIFF(e, t)); }
}
VC(bspline_cubic_sample) {
  const int N = 1 + (int)vc_choose(4); std::vector<V2> q(N+3); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); const D t = vc_real("t"); REQUIRES(t >= 0); REQUIRES(t <= N);
  D knot[16]; open_uniform(knot, 3, N); const int s = span_of(t, N); V2 p = d2::Sample_CubicBsplineCurve<V2>(t, q);
  for (int k = 0; k < 2; ++k) { D e = 0; for (int i = 0; i < N+3; ++i) e += q[i][k]*basis(knot, i, 3, s+3, t); ENSURES_EQ_L("cubic curve is the weighted sum of the control points", p[k], e); }
}
VC(bspline_cubic_polyline) {
  const int N = 1 + (int)vc_choose(3); const unsigned n = 2 + vc_choose(5); std::vector<V2> q(N+3), o(vc_choose(2)*9); for (auto &v : q) v = V2(vc_real("x"), vc_real("y"));
  d2::Polyline_CubicBSplineCurve(o, n, q); ENSURES_L("number of samples", o.size() == n); D knot[16]; open_uniform(knot, 3, N);
  for (unsigned j = 0; j < n && j < o.size(); ++j) { const D t = (D)(j*N)/(n-1); const int s = span_of(t, N); for (int k = 0; k < 2; ++k) { D e = 0; for (int i = 0; i < N+3; ++i) e += q[i][k]*basis(knot, i, 3, s+3, t); ENSURES_EQ_L("uniform samples from end to end", o[j][k], e); } }
}
template<int M> static void bspline_n() { // M = degree + 1
  const int N = 1 + (int)vc_choose(5); std::vector<V2> q(N+M-1); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); const D t = vc_real("t"); REQUIRES(t >= 0); REQUIRES(t <= N);
  D knot[20]; open_uniform(knot, M-1, N); const int s = span_of(t, N); V2 p = d2::Sample_BsplineCurve<V2, M>(t, q);
  D e[2] = {0, 0}; for (int k = 0; k < 2; ++k) { for (int i = 0; i < N+M-1; ++i) e[k] += q[i][k]*basis(knot, i, M-1, s+M-1, t); ENSURES_EQ_L("curve of any degree is the weighted sum of the control points", p[k], e[k]); }
  V2 g = d2::Sample_BsplineDerivative<V2, M>(t, q);
  for (int k = 0; k < 2; ++k) ENSURES_EQ_L("derivative curve", g[k], VC_DIFF(e[k], t));
}
VC(bspline_degree1) { bspline_n<2>(); }
VC(bspline_degree2) { bspline_n<3>(); }
VC(bspline_degree3) { bspline_n<4>(); }
VC(bspline_degree4) { bspline_n<5>(); }
VC(bspline_degree5) { bspline_n<6>(); }
// arbitrary knots: gaps of at least 1e-3, parameter inside a span
VC(bspline_de_boor) {
  const int deg = 1 + (int)vc_choose(3), ns = 1 + (int)vc_choose(3), ncp = deg + ns, nk = ncp + deg + 1; D knot[16]; knot[0] = vc_real("k0");
  for (int i = 1; i < nk; ++i) { const D g = vc_real("gap"); REQUIRES(g > 1e-3); knot[i] = knot[i-1] + g; }
  const int s = deg + (int)vc_choose(ns); const D t = vc_real("t"); REQUIRES(t > knot[s] + 1e-9); REQUIRES(t <= knot[s+1]);
  std::vector<V2> q(ncp); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); std::vector<D> kv(knot, knot + nk); V2 p = d2::DeBoorBSpline<V2>(t, deg, q, kv);
  for (int k = 0; k < 2; ++k) { D e = 0; for (int i = 0; i < ncp; ++i) e += q[i][k]*basis(knot, i, deg, s, t); ENSURES_EQ_L("de Boor evaluation equals the Cox-de Boor sum", p[k], e); }
}
// knots with multiplicities (clamped ends), sampled from end to end
VC(bspline_sample_knots) {
  const int deg = 2 + (int)vc_choose(2), N = 1 + (int)vc_choose(3), n = 1 + (int)vc_choose(6); std::vector<D> kn(N+1), flat(vc_choose(2)*3); std::vector<int> mul(N+1, 1); for (int i = 0; i <= N; ++i) kn[i] = i; mul[0] = mul[N] = deg+1;
  d2::FlatKnot(flat, mul, kn); D knot[20]; open_uniform(knot, deg, N); ENSURES_L("knots repeated by multiplicity", (int)flat.size() == N+2*deg+1); for (int i = 0; i < N+2*deg+1; ++i) ENSURES_EQ_L("knots repeated by multiplicity", flat[i], knot[i]);
  std::vector<V2> q(N+deg), o(vc_choose(2)*9); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); d2::SampleBSpline(o, n, deg, flat, q); ENSURES_L("number of samples", (int)o.size() == n+1);
  for (int j = 0; j <= n; ++j) { const D t = (D)(j*N)/n; const int s = span_of(t, N); for (int k = 0; k < 2; ++k) { D e = 0; for (int i = 0; i < N+deg; ++i) e += q[i][k]*basis(knot, i, deg, s+deg, t); ENSURES_EQ_L("uniform samples from end to end", o[j][k], e); } }
}
VC(flat_knot) {
  std::vector<D> kn(3), flat(vc_choose(2)*2); std::vector<int> mul(3); for (auto &x : kn) x = vc_real("k"); for (auto &m : mul) m = (int)vc_choose(4); d2::FlatKnot(flat, mul, kn);
  ENSURES_L("one entry per multiplicity", (int)flat.size() == mul[0]+mul[1]+mul[2]); int c = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < mul[i]; ++j) ENSURES_EQ_L("entry is the knot", flat[c++], kn[i]);
}
// Catmull-Rom: Hermite segments with central-difference tangents
static D hermite(D p, D m, D q, D n, D t) { return (1-t)*(1-t)*((1+2*t)*p + t*m) + t*t*((3-2*t)*q - (1-t)*n); }
VC(catmull_rom) {
  const int n = 3 + (int)vc_choose(4); std::vector<V2> q(n); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); const D t = vc_real("t"); REQUIRES(t >= 0); REQUIRES(t <= n-1); const int s = span_of(t, n-1);
  V2 p = d2::Sample_CatmullRomSplineCurve<V2>(t, q); auto tan = [&](int i, int k) { return i == 0 ? q[1][k]-q[0][k] : i == n-1 ? q[n-1][k]-q[n-2][k] : (q[i+1][k]-q[i-1][k])/2; };
  for (int k = 0; k < 2; ++k) { ENSURES_EQ_L("cubic Hermite segment with Catmull-Rom tangents", p[k], hermite(q[s][k], tan(s, k), q[s+1][k], tan(s+1, k), t-s)); const int i = (int)vc_choose(n); ENSURES_EQ_L("passes through the control points", d2::Sample_CatmullRomSplineCurve<V2>(i, q)[k], q[i][k]); }
}
VC(catmull_rom_polyline) {
  const int n = 3 + (int)vc_choose(2); const unsigned m = 2 + vc_choose(4); std::vector<V2> q(n), o(vc_choose(2)*7); for (auto &v : q) v = V2(vc_real("x"), vc_real("y")); d2::Polyline_CatmullRomSplineCurve(o, m, q); ENSURES_L("number of samples", o.size() == m);
  for (unsigned j = 0; j < m; ++j) { V2 e = d2::Sample_CatmullRomSplineCurve<V2>((D)(j*(n-1))/(m-1), q); for (int k = 0; k < 2; ++k) ENSURES_EQ_L("uniform samples from end to end", o[j][k], e[k]); }
}
