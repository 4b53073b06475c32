// Bezier curves: evaluation, subdivision, length, area, bounding box
// @bounded: quadratic_length_collinear_run bezier_aabb_degenerate quadratic_length_subdiv cubic_length_subdiv
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
// vector type with the compile-time size the bounding-box templates ask for
struct W2 { typedef D Scalar; enum { SizeAtCompileTime = 2 }; D p[2]; W2() : p{0, 0} {} W2(D x, D y) : p{x, y} {}
  D operator[](int i) const { return p[i]; } W2 operator+(const W2 &b) const { return W2(p[0]+b.p[0], p[1]+b.p[1]); } W2 operator-(const W2 &b) const { return W2(p[0]-b.p[0], p[1]-b.p[1]); } W2 operator-() const { return W2(-p[0], -p[1]); } };
static W2 operator*(D s, const W2 &a) { return W2(s*a.p[0], s*a.p[1]); }
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static D bern(int n, int i, D t) { D b = 1; for (int k = 0; k < i; ++k) b = b*(n-k)/(k+1)*t; for (int k = i; k < n; ++k) b *= 1-t; return b; }

VC(bezier_point) {
  D p[4][3]; vc_reals(&p[0][0], 12, "p"); const D t = vc_real("t");
  V3 q = d2::PointOnQuadraticBezierCurve<V3>(t, v3(p[0]), v3(p[1]), v3(p[2])), c = d2::PointOnCubicBezierCurve<V3>(t, v3(p[0]), v3(p[1]), v3(p[2]), v3(p[3]));
  V2 q2 = d2::PointOnQuadraticBezierCurve<V2>(t, v2(p[0]), v2(p[1]), v2(p[2])), c2 = d2::PointOnCubicBezierCurve<V2>(t, v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3]));
  V3 g = d2::Tangent_CubicBezierCurve<V3>(t, v3(p[0]), v3(p[1]), v3(p[2]), v3(p[3]));
  for (int k = 0; k < 3; ++k) { D sq = 0, sc = 0; for (int i = 0; i < 3; ++i) sq += bern(2, i, t)*p[i][k]; for (int i = 0; i < 4; ++i) sc += bern(3, i, t)*p[i][k];
    ENSURES_EQ_L("quadratic Bernstein form", q[k], sq); ENSURES_EQ_L("cubic Bernstein form", c[k], sc); if (k < 2) { ENSURES_EQ_L("quadratic Bernstein form", q2[k], sq); ENSURES_EQ_L("cubic Bernstein form", c2[k], sc); }
    ENSURES_EQ_L("tangent is the derivative", g[k], VC_DIFF(sc, t)); }
}
VC(bezier_polyline) {
  D p[4][2]; vc_reals(&p[0][0], 8, "p"); const unsigned n = 2 + vc_choose(5); std::vector<V2> a(vc_choose(2)*3), b(vc_choose(2)*9);
  d2::Polyline_BezierQuadratic(a, n, v2(p[0]), v2(p[1]), v2(p[2])); d2::Polyline_BezierCubic(b, n, v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3]));
  ENSURES_L("number of samples", a.size() == n && b.size() == n);
  for (unsigned j = 0; j < n; ++j) for (int k = 0; k < 2; ++k) { const D t = (D)j/(n-1); D sq = 0, sc = 0; for (int i = 0; i < 3; ++i) sq += bern(2, i, t)*p[i][k]; for (int i = 0; i < 4; ++i) sc += bern(3, i, t)*p[i][k];
    ENSURES_EQ_L("uniform samples from end to end", a[j][k], sq); ENSURES_EQ_L("uniform samples from end to end", b[j][k], sc); }
}
VC(bezier_split) {
  D p[4][2]; vc_reals(&p[0][0], 8, "p"); const D t = vc_real("t"), s = vc_real("s");
  auto q = d2::Split_QuadraticBezierCurve<V2>(v2(p[0]), v2(p[1]), v2(p[2]), t); auto c = d2::Split_CubicBezierCurve<V2>(v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3]), t);
  for (int h = 0; h < 2; ++h) for (int k = 0; k < 2; ++k) { const D u = h ? t + (1-t)*s : t*s; D a = 0, b = 0, x = 0, y = 0;
    for (int i = 0; i < 3; ++i) { a += bern(2, i, s)*q[h*3+i][k]; b += bern(2, i, u)*p[i][k]; }
    for (int i = 0; i < 4; ++i) { x += bern(3, i, s)*c[h*4+i][k]; y += bern(3, i, u)*p[i][k]; }
    ENSURES_EQ_L("halves of a split quadratic curve retrace it", a, b); ENSURES_EQ_L("halves of a split cubic curve retrace it", x, y); }
}
// signed area swept from the origin: 1/2 int x dy - y dx, integrated term by term
template<int N> static D swept(const D (*p)[2]) { D s = 0; // Bernstein: int B_i^n B_j^{n-1} = C(n,i) C(n-1,j) / ((2n) C(2n-1,i+j))
  auto C = [](int n, int k) { D r = 1; for (int i = 0; i < k; ++i) r = r*(n-i)/(i+1); return r; };
  for (int i = 0; i <= N; ++i) for (int j = 0; j < N; ++j) { const D w = C(N, i)*C(N-1, j)/(2*N*C(2*N-1, i+j))*N; s += w*(p[i][0]*(p[j+1][1]-p[j][1]) - p[i][1]*(p[j+1][0]-p[j][0]))/2; } return s; }
VC(bezier_area) {
  D p[4][2]; vc_reals(&p[0][0], 8, "p");
  ENSURES_EQ_L("area under a quadratic curve", d2::Area_QuadraticBezierCurve2(v2(p[0]), v2(p[1]), v2(p[2])), swept<2>(p));
  ENSURES_EQ_L("area under a cubic curve", d2::Area_CubicBezierCurve2(v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3])), swept<3>(p));
}
// the closed-form arc length: its derivative by the end parameter is the speed
VC(quadratic_length) {
  D a[3][3]; vc_reals(&a[0][0], 9, "a"); const D r = vc_real("r"); REQUIRES_POS(r, 1e-1); REQUIRES(r <= 1); const D s = r*r;
  D x[3], b[3], c[3]; for (int i = 0; i < 3; ++i) { b[i] = s*a[1][i]; c[i] = s*s*a[2][i]; } spec::cross(x, b, c); REQUIRES_POS(spec::dot3(x, x), 1e-3); REQUIRES(spec::dot3(c, c) > 2e-5);
  const D L = d2::Length_QuadraticCurve(v3(a[0]), v3(b), v3(c)); D g = 0; for (int i = 0; i < 3; ++i) { const D w = a[1][i] + 2*s*a[2][i]; g += w*w; }
  ENSURES_EQ_L("the arc length grows at the speed of the curve", VC_DIFF(L, r), 2*r*std::sqrt(g));
  D p0[3], p1[3], p2[3]; for (int i = 0; i < 3; ++i) { p0[i] = a[0][i]; p1[i] = p0[i] + b[i]/2; p2[i] = p0[i] + b[i] + c[i]; }
  ENSURES_EQ_L("Bezier form of the arc length", d2::Length_QuadraticBezierCurve_Analytic(v3(p0), v3(p1), v3(p2)), L);
}
// collinear control points: the curve runs along the segment and may turn back
static void collinear() {
  D n[3], u[3]; HAVOC(n); REQUIRES_POS(spec::dot3(n, n), 1e-2); spec::unit3(u, n); D p0[3], p1[3], p2[3]; HAVOC(p0);
  const D l = vc_real("l"), f = vc_choose(2) ? 0.0 : vc_real("f"); REQUIRES(l > 0.1); REQUIRES(f >= 0); REQUIRES(f < 0.4); // control point at the start, or up to 40% along: no turning back
  for (int i = 0; i < 3; ++i) { p1[i] = p0[i] + f*l*u[i]; p2[i] = p0[i] + l*u[i]; }
  ENSURES_EQ_L("a curve along a straight segment is as long as the segment", d2::Length_QuadraticBezierCurve_Analytic(v3(p0), v3(p1), v3(p2)), l);
}
VC(quadratic_length_collinear) { collinear(); }
VC(quadratic_length_collinear_run) { collinear(); } // also run: logarithm of zero
// quadrature: weighted sum of the speed at the Gauss points of the real table (checked in F05)
VC(bezier_length_gauss) {
  D p[4][3]; vc_reals(&p[0][0], 12, "p"); const int g = (int)vc_choose(6); D sq = 0, sc = 0;
  for (unsigned i = d2::kNumIntegrationPoint_GaussianQuadrature[g]; i < d2::kNumIntegrationPoint_GaussianQuadrature[g+1]; ++i) { const D t = (1 + d2::kPositionWeight_GaussianQuadrature<D>[i][0])/2, w = d2::kPositionWeight_GaussianQuadrature<D>[i][1]/2; D a = 0, b = 0;
    for (int k = 0; k < 3; ++k) { const D dq = 2*((1-t)*(p[1][k]-p[0][k]) + t*(p[2][k]-p[1][k])), dc = 3*((1-t)*(1-t)*(p[1][k]-p[0][k]) + 2*t*(1-t)*(p[2][k]-p[1][k]) + t*t*(p[3][k]-p[2][k])); a += dq*dq; b += dc*dc; } sq += w*std::sqrt(a); sc += w*std::sqrt(b); }
  ENSURES_EQ_L("quadratic length by quadrature", d2::Length_QuadraticBezierCurve_Quadrature(v3(p[0]), v3(p[1]), v3(p[2]), g), sq);
  ENSURES_EQ_L("cubic length by quadrature", d2::Length_CubicBezierCurve_Quadrature(v3(p[0]), v3(p[1]), v3(p[2]), v3(p[3]), g), sc);
}
// bounded: adaptive subdivision (recursion depth depends on the curve)
static D simpson(int n, const D p[][3], int deg) { D s = 0; for (int j = 0; j <= 2*n; ++j) { const D t = (D)j/(2*n), w = (j == 0 || j == 2*n) ? 1 : (j & 1) ? 4 : 2; D g = 0; for (int k = 0; k < 3; ++k) { D d = 0; for (int i = 0; i < deg; ++i) d += deg*bern(deg-1, i, t)*(p[i+1][k]-p[i][k]); g += d*d; } s += w*std::sqrt(g)/(6*n); } return s; }
VC(quadratic_length_subdiv) {
  D p[3][3]; vc_reals(&p[0][0], 9, "p"); const D L = d2::Length_QuadraticBezierCurve_QuadratureSubdiv(v3(p[0]), v3(p[1]), v3(p[2]), 1e-10, 10), S = simpson(2000, p, 2);
  ENSURES_L("adaptive length of a quadratic curve", fabs(L - S) < 1e-5*(1 + S));
}
VC(cubic_length_subdiv) {
  D p[4][3]; vc_reals(&p[0][0], 12, "p"); const D L = d2::Length_CubicBezierCurve_QuadratureSubdivision(v3(p[0]), v3(p[1]), v3(p[2]), v3(p[3]), 1e-10, 10), S = simpson(2000, p, 3);
  ENSURES_L("adaptive length of a cubic curve", fabs(L - S) < 1e-5*(1 + S));
}
static W2 w2(const D *a) { return W2(a[0], a[1]); }
VC(quadratic_aabb) {
  D p[3][2]; vc_reals(&p[0][0], 6, "p"); const D t = vc_real("t"); REQUIRES(t >= 0); REQUIRES(t <= 1);
  for (int k = 0; k < 2; ++k) REQUIRES_NONZERO(p[0][k] - 2*p[1][k] + p[2][k]);
  auto b = d2::AABB_QuadraticBezierCurve(w2(p[0]), w2(p[1]), w2(p[2]));
  const int k = (int)vc_choose(2); D x = 0; for (int i = 0; i < 3; ++i) x += bern(2, i, t)*p[i][k];
  ENSURES_GE_L("the box contains the curve", x, b[k]); ENSURES_GE_L("the box contains the curve", b[k+2], x);
}
VC(quadratic_aabb_tight) { // each side of the box touches the curve: at an end or at the turning point
  D p[3][2]; vc_reals(&p[0][0], 6, "p");
  for (int k = 0; k < 2; ++k) REQUIRES_NONZERO(p[0][k] - 2*p[1][k] + p[2][k]);
  auto b = d2::AABB_QuadraticBezierCurve(w2(p[0]), w2(p[1]), w2(p[2]));
  const int k = (int)vc_choose(2); const D a2 = p[0][k] - 2*p[1][k] + p[2][k], r = (p[0][k] - p[1][k])/a2; const bool in = r >= 0 && r <= 1;
  D e = 0; for (int i = 0; i < 3; ++i) e += bern(2, i, r)*p[i][k];
  const D lo = b[k], hi = b[k+2];
  ENSURES_L("lower side is attained", lo == p[0][k] || lo == p[2][k] || (in && lo == e)); ENSURES_L("upper side is attained", hi == p[0][k] || hi == p[2][k] || (in && hi == e));
}
// bounded: coordinates without a turning point inside, straight or of lower degree (divisions by zero, roots of negative numbers)
VC(bezier_aabb_degenerate) {
  D p[4][2]; const unsigned kind = vc_choose(6);
  for (int k = 0; k < 2; ++k) { const D a = vc_real("a"), b = vc_real("b"), c = vc_real("c"), d = vc_real("d");
    p[0][k] = a; p[3][k] = d; p[1][k] = b; p[2][k] = c;
    if (kind == 0) { p[1][k] = a; p[2][k] = d; } // flat at both ends
    if (kind == 1) { p[1][k] = a + (d-a)/3; p[2][k] = a + (d-a)*2/3; } // uniform motion
    if (kind == 2) { p[1][k] = p[2][k] = p[3][k] = a; } // constant
    if (kind == 3) { p[1][k] = a + (b-a)*2/3; p[2][k] = d + (b-d)*2/3; } // degree two
    if (kind == 4) { p[1][k] = a + 0.25*fabs(b); p[2][k] = p[1][k] + 0.25*fabs(c); p[3][k] = p[2][k] + fabs(d); } } // monotone
  auto b = d2::AABB_CubicBezierCurve(w2(p[0]), w2(p[1]), w2(p[2]), w2(p[3])); D q[3][2]; for (int k = 0; k < 2; ++k) { q[0][k] = p[0][k]; q[2][k] = p[3][k]; q[1][k] = kind == 1 || kind == 4 ? (p[0][k] + p[3][k])/2 : p[1][k]; } auto c = d2::AABB_QuadraticBezierCurve(w2(q[0]), w2(q[1]), w2(q[2]));
  for (int k = 0; k < 2; ++k) { D lo[2] = {1e99, 1e99}, hi[2] = {-1e99, -1e99}; for (int j = 0; j <= 400; ++j) { const D t = j/400.; D x = 0, y = 0; for (int i = 0; i < 4; ++i) x += bern(3, i, t)*p[i][k]; for (int i = 0; i < 3; ++i) y += bern(2, i, t)*q[i][k]; lo[0] = std::min(lo[0], x); hi[0] = std::max(hi[0], x); lo[1] = std::min(lo[1], y); hi[1] = std::max(hi[1], y); }
    ENSURES_L("box of a degenerate cubic curve", b[k] <= lo[0] + 1e-8 && b[k] > lo[0] - 1e-2*(1+fabs(lo[0])) && b[k+2] >= hi[0] - 1e-8 && b[k+2] < hi[0] + 1e-2*(1+fabs(hi[0])));
    ENSURES_L("box of a degenerate quadratic curve", c[k] <= lo[1] + 1e-8 && c[k] > lo[1] - 1e-2*(1+fabs(lo[1])) && c[k+2] >= hi[1] - 1e-8 && c[k+2] < hi[1] + 1e-2*(1+fabs(hi[1]))); }
}
// a coordinate with turning points r, r + h^2 and leading coefficient +-g^2 (every cubic with real turning points)
struct Cub { D d, a, r[2], p[4]; D at(D t) const { return d + a*(t*t*t - 1.5*(r[0]+r[1])*t*t + 3*r[0]*r[1]*t); } };
static Cub cub() {
  Cub c; c.d = vc_real("d"); const D g = vc_real("g"), h = vc_real("h"); c.r[0] = vc_real("r"); c.r[1] = c.r[0] + h*h; c.a = vc_choose(2) ? g*g : -(g*g); REQUIRES(g*g > 1e-6);
  const D b = -1.5*c.a*(c.r[0]+c.r[1]), l = 3*c.a*c.r[0]*c.r[1]; c.p[0] = c.d; c.p[1] = c.d + l/3; c.p[2] = c.d + 2*l/3 + b/3; c.p[3] = c.d + l + b + c.a; return c; }
static D clamp01(D t) { return t < 0 ? 0 : t > 1 ? 1 : t; }
VC(cubic_aabb) {
  const Cub c = cub(); const int k = (int)vc_choose(2), o = 1-k; D p[4][2]; for (int i = 0; i < 4; ++i) { p[i][k] = c.p[i]; p[i][o] = i/2; }
  auto x = d2::AABB_CubicBezierCurve(w2(p[0]), w2(p[1]), w2(p[2]), w2(p[3])); const D e[4] = {c.at(0), c.at(1), c.at(clamp01(c.r[0])), c.at(clamp01(c.r[1]))};
  ENSURES_EQ_L("box of the other coordinate", x[o], 0); ENSURES_EQ_L("box of the other coordinate", x[o+2], 1);
  for (int i = 0; i < 4; ++i) { ENSURES_GE_L("the box contains both ends and the turning points", e[i], x[k]); ENSURES_GE_L("the box contains both ends and the turning points", x[k+2], e[i]); }
  ENSURES_L("lower side is attained", x[k] == e[0] || x[k] == e[1] || x[k] == e[2] || x[k] == e[3]); ENSURES_L("upper side is attained", x[k+2] == e[0] || x[k+2] == e[1] || x[k+2] == e[2] || x[k+2] == e[3]);
}
// lemma: the ends and the clamped turning points bound a cubic on [0,1] (monotone between them)
VC(cubic_aabb_lemma) {
  const Cub c = cub(); const D t = vc_real("t"); REQUIRES(t >= 0); REQUIRES(t <= 1);
  const D u0 = clamp01(c.r[0]), u1 = clamp01(c.r[1]); const bool w = vc_choose(2); // lower or upper bound
  const D lo = t <= u0 ? 0 : t <= u1 ? u0 : u1, hi = t <= u0 ? u0 : t <= u1 ? u1 : 1; // monotone piece around t
  const D f = c.at(t), l = c.at(lo), h = c.at(hi), q = (l - f)*(h - f);
  // (f(lo) - f(t)) (f(hi) - f(t)) <= 0
  if (w) ENSURES_GE_L("monotone between turning points", 0, q); else ENSURES_GE_L("pieces cover the interval", (t - lo)*(hi - t), 0);
}
