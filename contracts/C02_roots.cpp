// polynomial roots and nearest points on parametric curves
// @opts: prune=2
// @bounded: root_interval_run roots_run nearest_sturm_run nearest_cubic_sturm_run nearest_bspline_run winding_run
// @assume: polynomials are square-free where intervals are isolated (a double root has no sign change)
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <algorithm>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/polynomial_root.h"
#include "delfem2/geo_aabb.h"
#include "delfem2/geo_curve_quadratic.h"
#include "delfem2/geo_curve_cubic.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
struct W2 { typedef D Scalar; enum { SizeAtCompileTime = 2 }; D p[2]; W2() : p{0, 0} {} W2(D x, D y) : p{x, y} {} D operator[](int i) const { return p[i]; } D dot(const W2 &b) const { return p[0]*b.p[0]+p[1]*b.p[1]; } D squaredNorm() const { return dot(*this); } D norm() const { return std::sqrt(dot(*this)); }
  W2 operator+(const W2 &b) const { return W2(p[0]+b.p[0], p[1]+b.p[1]); } W2 operator-(const W2 &b) const { return W2(p[0]-b.p[0], p[1]-b.p[1]); } W2 operator*(D s) const { return W2(s*p[0], s*p[1]); } };
static W2 operator*(D s, const W2 &a) { return a*s; }
static D poly(const D *a, int n, D x) { D s = 0, m = 1; for (int i = 0; i < n; ++i) { s += a[i]*m; m *= x; } return s; }
static D bern(int n, int i, D t) { D b = 1; for (int k = 0; k < i; ++k) b = b*(n-k)/(k+1)*t; for (int k = i; k < n; ++k) b *= 1-t; return b; }

VC(eval_polynomial) { D a[6]; HAVOC(a); const D x = vc_real("x"); const int n = 1 + (int)vc_choose(6); ENSURES_EQ_L("value of the polynomial", d2::Eval_Polynomial(x, a, n), poly(a, n, x)); }

// --- Sturm chains
// negated remainder of polynomial division, degree by degree; returns the number of coefficients left (0: exact division)
static int negrem(D *r, const D *a, int na, const D *b, int nb) { D w[8]; for (int i = 0; i < na; ++i) w[i] = a[i]; while (na >= nb) { const D q = w[na-1]/b[nb-1]; for (int i = 0; i < nb; ++i) w[na-nb+i] -= q*b[i]; --na; while (na >= nb && w[na-1] == 0) --na; } for (int i = 0; i < na; ++i) r[i] = -w[i]; while (na > 0 && r[na-1] == 0) --na; return na; }
template<int N> static void chain() {
  D c[N], s[N][N]; HAVOC(c); REQUIRES_NONZERO(c[N-1]); d2::SturmSequenceOfPolynomial<N>(s, c);
  D e[N][N] = {}; int n[N]; for (int i = 0; i < N; ++i) e[0][i] = c[i]; for (int i = 1; i < N; ++i) e[1][i-1] = i*c[i]; n[0] = N; n[1] = N-1; int m = 2;
  for (; m < N; ++m) { n[m] = n[m-1] > 0 ? negrem(e[m], e[m-2], n[m-2], e[m-1], n[m-1]) : 0; if (n[m] == 0) break; }
  for (int i = 0; i < N; ++i) for (int j = 0; j < N-i; ++j) ENSURES_EQ_L("chain of negated remainders of the polynomial and its derivative", s[i][j], i < m && j < n[i] ? e[i][j] : 0);
}
VC(sturm_chain_2) { chain<2>(); }
VC(sturm_chain_3) { chain<3>(); }
VC(sturm_chain_4) { chain<4>(); }
template<int N> static void chain_generic() { // no accidental zero coefficient
  D c[N], s[N][N]; HAVOC(c); REQUIRES_NONZERO(c[N-1]); D e[N][N] = {}; for (int i = 0; i < N; ++i) e[0][i] = c[i]; for (int i = 1; i < N; ++i) e[1][i-1] = i*c[i];
  for (int m = 2; m < N; ++m) { const int na = N-m+2, nb = na-1; D w[8]; for (int i = 0; i < na; ++i) w[i] = e[m-2][i]; const D q1 = w[na-1]/e[m-1][nb-1]; for (int i = 0; i < nb; ++i) w[i+1] -= q1*e[m-1][i]; REQUIRES_NONZERO(w[nb-1]); const D q0 = w[nb-1]/e[m-1][nb-1]; for (int i = 0; i < nb; ++i) w[i] -= q0*e[m-1][i]; for (int i = 0; i < nb-1; ++i) e[m][i] = -w[i]; REQUIRES_NONZERO(e[m][nb-2]); }
  d2::SturmSequenceOfPolynomial<N>(s, c);
  for (int i = 0; i < N; ++i) for (int j = 0; j < N-i; ++j) ENSURES_EQ_L("chain of negated remainders of the polynomial and its derivative", s[i][j], e[i][j]);
}
VC(sturm_chain_5) { chain_generic<5>(); }
VC(sturm_chain_6) { chain_generic<6>(); }
VC(sturm_closed_quadratic) { // positive multiples of the chain
  D c[3], s[3][3]; HAVOC(c); REQUIRES_NONZERO(c[2]); d2::SturmSequenceOfPolynomial_Quadratic(s, c); const D x = vc_real("x");
  ENSURES_EQ_L("the polynomial", poly(s[0], 3, x), poly(c, 3, x)); ENSURES_EQ_L("its derivative", poly(s[1], 2, x), c[1] + 2*c[2]*x);
  const D a = fabs(c[2]); ENSURES_EQ_L("positive multiple of the negated remainder", s[2][0]*a*4, 16*a*a*(c[1]*c[1]/(4*c[2]) - c[0])); // -rem = c1^2/(4 c2) - c0
}
VC(sturm_closed_cubic) {
  D c[4], s[4][4]; HAVOC(c); REQUIRES_NONZERO(c[3]); d2::SturmSequenceOfPolynomial_Cubic(s, c); const D x = vc_real("x"), a = fabs(c[3]);
  ENSURES_EQ_L("the polynomial", poly(s[0], 4, x), poly(c, 4, x)); ENSURES_EQ_L("its derivative", poly(s[1], 3, x), c[1] + 2*c[2]*x + 3*c[3]*x*x);
  const D q = x/3 + c[2]/(9*c[3]); ENSURES_EQ_L("positive multiple of the negated remainder", poly(s[2], 2, x), 9*a*(poly(s[1], 3, x)*q - poly(s[0], 4, x)));
  D b[3] = {s[1][0], s[1][1], s[1][2]}; const D l = s[2][1], m = s[2][0]; // rem(s1, s2): value of s1 at the root of s2, -s1(-m/l); 9 s3 = -s1(-m/l) l^2
  ENSURES_EQ_L("positive multiple of the negated remainder", s[3][0]*9, -(b[0]*l*l - b[1]*m*l + b[2]*m*m));
}
// the chain counts the roots to the right of x
VC(sturm_count_quadratic) {
  const D p = vc_real("p"), g = vc_real("g"), q = p + g; REQUIRES_POS(g, 1e-3); const D k = vc_real("k"); REQUIRES_POS(k, 1e-3); const D a = vc_choose(2) ? k : -k; D c[3] = {a*p*q, -a*(p+q), a}, s[3][3]; const bool cl = vc_choose(2); if (cl) d2::SturmSequenceOfPolynomial_Quadratic(s, c); else d2::SturmSequenceOfPolynomial<3>(s, c);
  D x; const unsigned w = vc_choose(3); x = w == 0 ? p : w == 1 ? q : vc_real("x"); const int n = d2::SturmNumber<3>(x, s);
  ENSURES_L("number of sign changes is the number of roots to the right", n == (x < p) + (x < q));
}
VC(sturm_count_quadratic_none) {
  const D k = vc_real("k"), m = vc_real("m"), h = vc_real("h"); REQUIRES_POS(k, 1e-3); REQUIRES_POS(h, 1e-3); const D a = vc_choose(2) ? k : -k; D c[3] = {a*(m*m + h), -2*a*m, a}, s[3][3]; if (vc_choose(2)) d2::SturmSequenceOfPolynomial_Quadratic(s, c); else d2::SturmSequenceOfPolynomial<3>(s, c);
  const D x = vc_real("x"), y = vc_real("y"); ENSURES_L("no root, no change of the Sturm number", d2::SturmNumber<3>(x, s) == d2::SturmNumber<3>(y, s));
}
VC(sturm_count_chain) { // the sign changes of any chain, zeros skipped
  D s[4][4]; vc_reals(&s[0][0], 16, "s"); const D x = vc_real("x"); int sg[4]; for (int i = 0; i < 4; ++i) { const D v = poly(s[i], 4-i, x); sg[i] = v > 0 ? 1 : v < 0 ? -1 : 0; }
  int n = 0, last = 0; for (int i = 0; i < 4; ++i) if (sg[i]) { if (last && last != sg[i]) ++n; last = sg[i]; } ENSURES_L("sign changes with zeros skipped", d2::SturmNumber<4>(x, s) == n);
}
// multiple roots: the chain divided by the greatest common divisor has the same roots, all simple
VC(simple_roots) {
  const D p = vc_real("p"), q = vc_real("q"), k = vc_real("k"), x = vc_real("x"); REQUIRES_NONZERO(k); REQUIRES_NONZERO(p - q); const unsigned w = vc_choose(3); const int n = 4;
  // k (x-p)^2 (x-q), k (x-p)^3, k (x-p) (x-q) (x-p-q): double, triple, simple
  const D r[3] = {p, w < 2 ? p : q, w == 0 ? q : w == 1 ? p : p+q}; if (w == 2) { REQUIRES_NONZERO(p); REQUIRES_NONZERO(q); const D u = p*p - p*q + q*q; REQUIRES_NONZERO(u); }
  D c[4] = {-k*r[0]*r[1]*r[2], k*(r[0]*r[1] + r[1]*r[2] + r[2]*r[0]), -k*(r[0]+r[1]+r[2]), k}; D s[4][4], s0[4][4]; d2::SturmSequenceOfPolynomial<4>(s, c); for (int i = 0; i < 16; ++i) s0[i/4][i%4] = s[i/4][i%4];
  d2::MakeRootsSimple_SturmSequence<4>(s); const D f = k*(x-p)*(w == 1 ? 1 : x-q)*(w == 2 ? x-p-q : 1);
  // proportional to the square-free part, and every element of the chain was divided by the same polynomial
  const D g = poly(s[0], 4, x), lead = w == 0 ? s[0][2] : w == 1 ? s[0][1] : s[0][3]; ENSURES_EQ_L("same roots, all simple", g*k, lead*f); ENSURES_L("not the zero polynomial", lead != 0);
  for (int i = 1; i < n; ++i) { D a = 0, b = 0, m = 1; for (int j = 0; j < n-i; ++j) { a += s[i][j]*m; b += s0[i][j]*m; m *= x; } ENSURES_EQ_L("the whole chain is divided", a*poly(s0[0], 4, x), b*g); }
}
// isolating intervals, for roots on a grid that has all midpoints and both ends, any scale
VC(root_interval) {
  const int n = 16, i = (int)vc_choose(n+3) - 1, j = i + 1 + (int)vc_choose(n - i + 2), w = (int)vc_choose(2); const D k = vc_real("k"), x0 = 0, x1 = 1, p = (D)i/n, q = (D)j/n; REQUIRES_POS(k, 1e-3); const D a = w ? k : -k; D c[3] = {a*p*q, -a*(p+q), a}, s[3][3]; d2::SturmSequenceOfPolynomial_Quadratic(s, c);
  auto r = d2::RootInterval_SturmSequence<3>(x0, x1, s); const int ip = p > x0 && p <= x1, iq = q > x0 && q <= x1; ENSURES_L("one interval per root in the range", (int)r.size() == ip + iq);
  int np = 0, nq = 0; for (auto &i : r) { const bool hp = i.first < p && p <= i.second, hq = i.first < q && q <= i.second; np += hp; nq += hq; ENSURES_L("exactly one root per interval", hp != hq); ENSURES_L("interval inside the range", i.first >= x0 && i.second <= x1); }
  ENSURES_L("every root in the range is isolated once", np == ip && nq == iq);
}
VC(roots_quadratic_range) {
  const D x0 = vc_real("x0"), w = vc_real("w"), p = vc_real("p"), g = vc_real("g"), q = p + g, x1 = x0 + w; REQUIRES(w >= 0); REQUIRES_POS(g, 1e-3); const D k = vc_real("k"); REQUIRES_POS(k, 1e-3); const D a = vc_choose(2) ? k : -k;
  auto r = d2::RootsInRange_QuadraticPolynomial<D>(x0, x1, a, -a*(p+q), a*p*q); const bool ip = p >= x0 && p <= x1, iq = q >= x0 && q <= x1; ENSURES_L("one entry per root in the range", r.size() == (size_t)(ip + iq));
  if (ip != iq && r.size() == 1) ENSURES_EQ_L("the root in the range", r[0], ip ? p : q); if (ip && iq && r.size() == 2) { ENSURES_EQ_L("both roots", r[0] + r[1], p + q); ENSURES_EQ_L("both roots", r[0]*r[1], p*q); }
}
VC(roots_quadratic_none) { const D k = vc_real("k"), m = vc_real("m"), h = vc_real("h"), x0 = vc_real("x0"), w = vc_real("w"); REQUIRES(w >= 0); REQUIRES_POS(k, 1e-3); REQUIRES_POS(h, 1e-3); const D a = vc_choose(2) ? k : -k; ENSURES_L("no real root", d2::RootsInRange_QuadraticPolynomial<D>(x0, x0 + w, a, -2*a*m, a*(m*m + h)).empty()); }
VC(roots_linear_range) {
  const D x0 = vc_real("x0"), w = vc_real("w"), x1 = x0 + w, p = vc_real("p"), b = vc_real("b"); REQUIRES(w >= 0); REQUIRES_NONZERO(b); auto r = d2::RootsInRange_QuadraticPolynomial<D>(x0, x1, 0, b, -b*p);
  ENSURES_L("the root of a linear equation, if in the range", r.size() == (size_t)(p >= x0 && p <= x1)); if (r.size() == 1) ENSURES_EQ_L("root of a linear equation", r[0], p);
}
// bisection: f = (x - r) (u x + v) with the second factor of one sign on the interval
VC(bisection) {
  const D l = vc_real("l"), w = vc_real("w"), h = l + w, e = vc_real("e"), r = l + e; REQUIRES_POS(w, 1e-1); REQUIRES(e >= 0); REQUIRES(e <= w); const D fl = vc_real("fl"), fh = vc_real("fh"); REQUIRES_POS(fl, 1e-1); REQUIRES_POS(fh, 1e-1); // values of the factor at the ends
  const D u = (fh - fl)/w, v = fl - u*l, sg = vc_choose(2) ? 1 : -1; D a[3] = {-sg*r*v, sg*(v - r*u), sg*u}; const int n = (int)vc_choose(4);
  if (vc_choose(2)) { const unsigned k = vc_choose(5); REQUIRES(e*4 == w*k); } // roots at the ends and at midpoints
  const D x = d2::RootInInterval_Bisection(l, h, a, 3, n), len = w/(1 << n);
  ENSURES_GE_L("within the interval", x, l); ENSURES_GE_L("within the interval", h, x); ENSURES_GE_L("root to the accuracy of the bisections", x - r, -len); ENSURES_GE_L("root to the accuracy of the bisections", len, x - r);
}
VC(bisection_linear) { const D l = vc_real("l"), w = vc_real("w"), e = vc_real("e"), b = vc_real("b"), r = l + e; REQUIRES_POS(w, 1e-1); REQUIRES(e >= 0); REQUIRES(e <= w); REQUIRES_NONZERO(b); D a[2] = {-b*r, b}; ENSURES_EQ_L("a linear function is solved exactly", d2::RootInInterval_Bisection(l, l + w, a, 2, (int)vc_choose(3)), r); }
#ifndef VC_SYM
static int isect(std::vector<D> &r, const D *c, int n) { const int M = 4000; r.clear(); for (int i = 0; i < M; ++i) { D a = (D)i/M, b = (D)(i+1)/M; if (poly(c, n, a)*poly(c, n, b) < 0) { for (int k = 0; k < 60; ++k) { const D m = (a+b)/2; (poly(c, n, a)*poly(c, n, m) <= 0 ? b : a) = m; } r.push_back(a); } } return r.size(); }
#else
static int isect(std::vector<D> &, const D *, int) { return 0; }
#endif
template<int N> static void roots_run() { // polynomials given by their roots: random and well separated, or on a grid, possibly repeated
  const bool grid = vc_choose(2); D c[N] = {grid ? (vc_choose(2) ? 1. : -1.) : vc_real("k")}; REQUIRES(fabs(c[0]) > 0.1); std::vector<D> t; int n = 1;
  for (int i = 0; i < N-1; ++i) { const D r = grid ? (int)vc_choose(N < 5 ? 13 : 4)*0.25 - 1 : 2.9*vc_real("r"); if (!grid) { for (D q : t) REQUIRES(fabs(q - r) > 0.02); REQUIRES(fabs(r) > 1e-3 && fabs(r - 1) > 1e-3); REQUIRES(fabs(r) < 10); } t.push_back(r); for (int j = n; j >= 0; --j) c[j] = (j ? c[j-1] : 0) - (j < n ? r*c[j] : 0); ++n; }
  std::sort(t.begin(), t.end()); if (grid) for (size_t i = 1; i < t.size(); ++i) REQUIRES(t[i] != t[i-1] || t[i] == 0); t.erase(std::unique(t.begin(), t.end()), t.end()); auto o = d2::RootsOfPolynomial<N>(c, 30); std::sort(o.begin(), o.end()); std::vector<D> e; for (D r : t) if (r > 0 && r <= 1) e.push_back(r);
  ENSURES_L("as many roots as the polynomial has in the range", o.size() == e.size()); for (size_t i = 0; i < e.size() && i < o.size(); ++i) ENSURES_L("accurate roots", fabs(o[i] - e[i]) < 1e-5);
}
VC(roots_run) { switch (vc_choose(4)) { case 0: roots_run<2>(); break; case 1: roots_run<3>(); break; case 2: roots_run<4>(); break; default: roots_run<6>(); } }
VC(root_interval_run) { D c[5]; HAVOC(c); std::vector<D> r; isect(r, c, 5); for (D x : r) REQUIRES(x > 1e-3 && x < 0.999); D s[5][5]; d2::SturmSequenceOfPolynomial<5>(s, c); d2::MakeRootsSimple_SturmSequence<5>(s); auto o = d2::RootInterval_SturmSequence<5>(0, 1, s); for (size_t i = 0; i < r.size(); ++i) { int n = 0; for (auto &v : o) n += v.first < r[i] && r[i] <= v.second; ENSURES_L("every sign change of the polynomial lies in exactly one interval", n == 1); } }

// --- nearest points
template<int DEG, class V> static void nearest(V (*mk)(const D *), int dim) {
  D p[4][3], q[3]; vc_reals(&p[0][0], 12, "p"); HAVOC(q); const unsigned ns = 1 + vc_choose(3), nn = vc_choose(2); D t;
  if constexpr (DEG == 2) t = d2::Nearest_QuadraticBezierCurve<V>(mk(q), mk(p[0]), mk(p[1]), mk(p[2]), ns, nn); else t = d2::Nearest_CubicBezierCurve<V>(mk(q), mk(p[0]), mk(p[1]), mk(p[2]), mk(p[3]), ns, nn);
  ENSURES_GE_L("parameter of the curve", t, 0); ENSURES_GE_L("parameter of the curve", 1, t);
  auto dist = [&](D u) { D d = 0; for (int k = 0; k < dim; ++k) { D x = -q[k]; for (int i = 0; i <= DEG; ++i) x += bern(DEG, i, u)*p[i][k]; d += x*x; } return std::sqrt(d); };
  const D d = dist(t); for (unsigned i = 0; i <= ns; ++i) ENSURES_GE_L("not farther than any sample of the curve", dist((D)i/ns), d);
}
VC(nearest_quadratic) { nearest<2, V2>(v2, 2); }
VC(nearest_cubic) { nearest<3, V2>(v2, 2); }
// one Newton step on the derivative of the squared distance, from the best sample
template<int DEG> static void newton() {
  D p[4][2], q[2]; vc_reals(&p[0][0], 8, "p"); HAVOC(q); const D t0 = vc_choose(2); D u = vc_real("u"); REQUIRES(u == t0);
  D w = 0; for (int k = 0; k < 2; ++k) { D x = -q[k]; for (int i = 0; i <= DEG; ++i) x += bern(DEG, i, u)*p[i][k]; w += x*x; } // squared distance
  const D g = VC_DIFF(w, u), h = VC_DIFF(g, u); D t;
  if constexpr (DEG == 2) t = d2::Nearest_QuadraticBezierCurve<V2>(v2(q), v2(p[0]), v2(p[1]), v2(p[2]), 1, 1); else t = d2::Nearest_CubicBezierCurve<V2>(v2(q), v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3]), 1, 1);
  if (t > 0) if (t < 1) { const D a0 = -q[0] + p[0][0], a1 = -q[1] + p[0][1], b0 = -q[0] + p[DEG][0], b1 = -q[1] + p[DEG][1]; const bool second = std::sqrt(b0*b0 + b1*b1) < std::sqrt(a0*a0 + a1*a1); if (second == (t0 == 1)) ENSURES_EQ_L("Newton step of the squared distance", (t - t0)*h, -g); }
}
VC(newton_quadratic) { newton<2>(); }
VC(newton_cubic) { newton<3>(); }
VC(nearest_stationary) { // curve point with vanishing velocity at the query: stays finite
  D p[4][2]; vc_reals(&p[0][0], 8, "p"); const bool cub = vc_choose(2); const unsigned ns = 1 + vc_choose(2); const int all = (int)vc_choose(2); for (int k = 0; k < 2; ++k) { p[1][k] = p[0][k]; if (all) p[2][k] = p[3][k] = p[0][k]; }
  const D t = cub ? d2::Nearest_CubicBezierCurve<V2>(v2(p[0]), v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3]), ns, 2) : d2::Nearest_QuadraticBezierCurve<V2>(v2(p[0]), v2(p[0]), v2(p[1]), v2(p[2]), ns, 2);
  ENSURES_EQ_L("the end point itself", t, 0);
}
// a straight, uniformly parametrised curve: foot of the perpendicular or the nearer end (whole Sturm pipeline, every path)
VC(nearest_line) {
  D c[2], b[2]; HAVOC(c); HAVOC(b); REQUIRES_POS(b[0]*b[0] + b[1]*b[1], 1e-1); const D f = -(c[0]*b[0] + c[1]*b[1])/(b[0]*b[0] + b[1]*b[1]);
  const D t = d2::Nearest_Origin_QuadraticCurve<V2>(v2(c), v2(b), V2(0, 0), (int)vc_choose(3)); ENSURES_EQ_L("nearest point of a segment", t, f < 0 ? 0 : f > 1 ? 1 : f);
}
VC(bezier_plane) { // a reported intersection is on the plane
  D p[4][3], o[3], n[3]; vc_reals(&p[0][0], 12, "p"); HAVOC(o); HAVOC(n); D t = vc_real("t"); D h[4]; for (int i = 0; i < 4; ++i) { h[i] = 0; for (int k = 0; k < 3; ++k) h[i] += (p[i][k] - o[k])*n[k]; }
  if (vc_choose(2)) { REQUIRES(h[0]*h[3] > 0); ENSURES_L("both ends on one side: nothing reported", !d2::getParameterCubicBezier_IntersectionWithPlane<V3>(t, v3(o), v3(n), v3(p[0]), v3(p[1]), v3(p[2]), v3(p[3]))); return; }
  // uniform motion across the plane: found at once and exact
  for (int i = 1; i < 3; ++i) for (int k = 0; k < 3; ++k) p[i][k] = (p[0][k]*(3-i) + p[3][k]*i)/3; REQUIRES(h[0] < 0); REQUIRES(h[3] > 0); REQUIRES(h[3] - h[0] > 1e-3);
  const bool r = d2::getParameterCubicBezier_IntersectionWithPlane<V3>(t, v3(o), v3(n), v3(p[0]), v3(p[1]), v3(p[2]), v3(p[3])); ENSURES_L("crossing found", r); if (r) { const D x = h[0] + t*(h[3] - h[0]), e = 3e-5*(h[3] - h[0]); ENSURES_GE_L("on the plane", x, -e); ENSURES_GE_L("on the plane", e, x); }
}
static D sampled(const D (*p)[2], int deg, const D *q) { D best = 1e99; for (int j = 0; j <= 4000; ++j) { const D t = j/4000.; D d = 0; for (int k = 0; k < 2; ++k) { D x = -q[k]; for (int i = 0; i <= deg; ++i) x += bern(deg, i, t)*p[i][k]; d += x*x; } best = std::min(best, std::sqrt(d)); } return best; }
static D at(const D (*p)[2], int deg, const D *q, D t) { D d = 0; for (int k = 0; k < 2; ++k) { D x = -q[k]; for (int i = 0; i <= deg; ++i) x += bern(deg, i, t)*p[i][k]; d += x*x; } return std::sqrt(d); }
// generic points, off the special values the search likes: the remainder chain in floating point breaks down where leading coefficients cancel exactly (DESIGN.md)
static void generic(D (*p)[2], int deg, D *q) { for (int i = 0; i <= deg; ++i) for (int k = 0; k < 2; ++k) p[i][k] = 0.97*p[i][k] + 0.01*std::sin(1 + i*2.3 + k*1.7); for (int k = 0; k < 2; ++k) q[k] = 0.97*q[k] + 0.01*std::sin(7 + k); }
static void mirror(D (*p)[2], int deg, D *q) { generic(p, deg, q); if (vc_choose(2)) { q[0] = 0; for (int i = 0; i <= deg/2; ++i) { p[deg-i][0] = -p[i][0]; p[deg-i][1] = p[i][1]; } if (deg == 2) p[1][0] = 0; } }
VC(nearest_sturm_run) { D p[4][2], q[2]; vc_reals(&p[0][0], 8, "p"); HAVOC(q); mirror(p, 2, q); const D t = d2::Nearest_QuadraticBezierCurve_Sturm<V2>(v2(q), v2(p[0]), v2(p[1]), v2(p[2]), 30); ENSURES_L("parameter of the curve", t >= 0 && t <= 1); ENSURES_L("nearest point of a quadratic curve", at(p, 2, q, t) < sampled(p, 2, q) + 1e-5); }
VC(nearest_cubic_sturm_run) { D p[4][2], q[2]; vc_reals(&p[0][0], 8, "p"); HAVOC(q); mirror(p, 3, q); const D t = d2::Nearest_CubicBezierCurve_Strum<V2>(v2(q), v2(p[0]), v2(p[1]), v2(p[2]), v2(p[3]), 30); ENSURES_L("parameter of the curve", t >= 0 && t <= 1); ENSURES_L("nearest point of a cubic curve", at(p, 3, q, t) < sampled(p, 3, q) + 1e-5); }
VC(nearest_bspline_run) {
  const int n = 3 + (int)vc_choose(3); std::vector<W2> p(n); for (auto &v : p) v = W2(vc_real("x"), vc_real("y")); std::vector<V2> pv; for (auto &v : p) pv.push_back(V2(v.p[0], v.p[1])); W2 q(vc_real("x"), vc_real("y")); const D t = d2::Nearest_QuadraticBSplineCurve<W2>(p, q); ENSURES_L("parameter of the curve", t >= 0 && t <= n-2);
  auto d = [&](D t) { V2 x = d2::Sample_QuadraticBsplineCurve<V2>(t, pv); return std::sqrt((x[0]-q.p[0])*(x[0]-q.p[0]) + (x[1]-q.p[1])*(x[1]-q.p[1])); }; D b = 1e99; for (int j = 0; j <= 3000; ++j) b = std::min(b, d(j*(n-2)/3000.)); ENSURES_L("nearest point of a B-spline", d(t) < b + 1e-3);
}
VC(winding_run) { // angle swept around the origin, against fine sampling
  D p[3][2]; vc_reals(&p[0][0], 6, "p"); D s = 0, lo = 1e99; const int M = 2000; D a[2] = {p[0][0], p[0][1]}; for (int j = 1; j <= M; ++j) { const D t = (D)j/M; D b[2] = {0, 0}; for (int k = 0; k < 2; ++k) b[k] = p[0][k] + p[1][k]*t + p[2][k]*t*t; s += std::atan2(a[0]*b[1]-a[1]*b[0], a[0]*b[0]+a[1]*b[1]); lo = std::min(lo, b[0]*b[0]+b[1]*b[1]); a[0] = b[0]; a[1] = b[1]; }
  D sp = 0; for (int k = 0; k < 2; ++k) { const D v = fabs(p[1][k]) + 2*fabs(p[2][k]); sp += v*v; } REQUIRES(lo > 1e-3*sp); ENSURES_L("angle swept around the origin", fabs(d2::WindingNumber_QuadraticCurve2<V2>(v2(p[0]), v2(p[1]), v2(p[2]), 20, 3) - s) < 1e-6);
}
