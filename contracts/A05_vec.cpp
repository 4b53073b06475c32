// 2D and 3D vectors
// @opts: prune=2
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
template<class V> static void eq2(const V &a, D x, D y, const char *l) { ENSURES_EQ_L(l, a[0], x); ENSURES_EQ_L(l, a[1], y); }
template<class V> static void eq3(const V &a, D x, D y, D z, const char *l) { ENSURES_EQ_L(l, a[0], x); ENSURES_EQ_L(l, a[1], y); ENSURES_EQ_L(l, a[2], z); }

VC(vec2_linear) {
  D a[2], b[2]; HAVOC(a); HAVOC(b); const D s = vc_real("s"); const V2 A = v2(a), B = v2(b);
  eq2(A + B, a[0]+b[0], a[1]+b[1], "sum"); eq2(A - B, a[0]-b[0], a[1]-b[1], "difference"); eq2(-A, -a[0], -a[1], "negation"); eq2(s*A, s*a[0], s*a[1], "scaling from the left"); eq2(A*s, s*a[0], s*a[1], "scaling from the right");
  V2 C = A; C += B; eq2(C, a[0]+b[0], a[1]+b[1], "in-place sum"); C = A; C -= B; eq2(C, a[0]-b[0], a[1]-b[1], "in-place difference"); C = A; C *= s; eq2(C, s*a[0], s*a[1], "in-place scaling");
  eq2(V2(std::array<D, 2>{a[0], a[1]}), a[0], a[1], "from an array"); eq2(V2(a), a[0], a[1], "from a pointer"); eq2(V2(s), s, s, "from one value"); eq2(V2(), 0, 0, "zero"); C.setZero(); eq2(C, 0, 0, "set zero"); ENSURES(A(0) == a[0] && A(1) == a[1] && A.x == a[0] && A.y == a[1] && A.data()[1] == a[1]);
}
VC(vec2_division) { D a[2]; HAVOC(a); const D s = vc_real("s"); REQUIRES(s >= 1e-5 || s <= -1e-5); V2 C = v2(a); C /= s; eq2(C, a[0]/s, a[1]/s, "in-place division"); eq2(v2(a)/s, a[0]/s, a[1]/s, "division"); }
VC(vec2_products) {
  D a[2], b[2], c[2]; HAVOC(a); HAVOC(b); HAVOC(c); const V2 A = v2(a), B = v2(b), C = v2(c); const D dt = a[0]*b[0]+a[1]*b[1], cr = a[0]*b[1]-a[1]*b[0], sl = a[0]*a[0]+a[1]*a[1], sd = (a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1]);
  ENSURES_EQ_L("dot", A.dot(B), dt); ENSURES_EQ_L("dot", d2::Dot2(a, b), dt); ENSURES_EQ_L("dot", d2::Dot(A, B), dt); ENSURES_EQ_L("cross", A ^ B, cr); ENSURES_EQ_L("cross", d2::Cross(A, B), cr); ENSURES_EQ_L("cross", d2::Cross2(A, B), cr);
  ENSURES_EQ_L("squared length", A.squaredNorm(), sl); ENSURES_EQ_L("squared length", d2::SquareLength2(a), sl); ENSURES_EQ_L("squared length", d2::SquareLength(A), sl); ENSURES_EQ_L("length", A.norm(), sqrt(sl)); ENSURES_EQ_L("length", d2::Length2(a), sqrt(sl)); ENSURES_EQ_L("length", d2::Length(A), sqrt(sl));
  ENSURES_EQ_L("squared distance", d2::SquareDistance2(a, b), sd); ENSURES_EQ_L("squared distance", d2::SquareDistance(A, B), sd); ENSURES_EQ_L("distance", d2::Distance2(a, b), sqrt(sd)); ENSURES_EQ_L("distance", d2::Distance(A, B), sqrt(sd));
  const D ar = ((b[0]-a[0])*(c[1]-a[1]) - (c[0]-a[0])*(b[1]-a[1]))/2; ENSURES_EQ_L("signed area", d2::Area_Tri2(a, b, c), ar); ENSURES_EQ_L("signed area", d2::Area_Tri2(A, B, C), ar); const std::vector<V2> P = {C, A, B}; ENSURES_EQ_L("signed area by index", d2::Area_Tri(1, 2, 0, P), ar);
}
VC(vec2_normalize) { D a[2]; HAVOC(a); const D l = sqrt(a[0]*a[0]+a[1]*a[1]); REQUIRES_POS(l, 1e-2); eq2(v2(a).normalized(), a[0]/l, a[1]/l, "unit vector of the same direction"); V2 A = v2(a); A.normalize(); eq2(A, a[0]/l, a[1]/l, "unit vector of the same direction"); d2::Normalize2(a); eq2(a, A.x, A.y, "unit vector of the same direction"); }
VC(vec2_rotation) { D a[2]; HAVOC(a); const D t = vc_real("t"), c = cos(t), s = sin(t); eq2(v2(a).Rotate(t), c*a[0]-s*a[1], s*a[0]+c*a[1], "counter-clockwise rotation"); eq2(d2::rotate(v2(a), t), c*a[0]-s*a[1], s*a[0]+c*a[1], "counter-clockwise rotation"); eq2(d2::rotate90(v2(a)), -a[1], a[0], "quarter turn"); }
VC(vec2_matrix) { D a[2], m[4], h[9]; HAVOC(a); HAVOC(m); HAVOC(h); eq2(d2::Mat2Vec(m, v2(a)), m[0]*a[0]+m[1]*a[1], m[2]*a[0]+m[3]*a[1], "row-major product"); const D w = h[6]*a[0]+h[7]*a[1]+h[8]; REQUIRES_NONZERO(w);
  eq2(v2(a).Mat3Vec2_AffineProjection(h), (h[0]*a[0]+h[1]*a[1]+h[2])/w, (h[3]*a[0]+h[4]*a[1]+h[5])/w, "homogeneous transformation of a point"); eq2(v2(a).Mat3Vec2_AffineDirection(h), h[0]*a[0]+h[1]*a[1], h[3]*a[0]+h[4]*a[1], "transformation of a direction"); }
// parametrised by the circle: center c, radius r, three points at half-angle tangents u, v, w
static V2 on(const D *c, D r, D u) { const D q = 1 + u*u; return V2(c[0] + r*(1-u*u)/q, c[1] + r*2*u/q); }
VC(vec2_delaunay) {
  D c[2], u[3], x[2]; HAVOC(c); HAVOC(u); HAVOC(x); const D r = vc_real("r"); REQUIRES_POS(r, 1e-1); for (int i = 0; i < 3; ++i) REQUIRES(u[i] > -3 && u[i] < 3); REQUIRES(fabs(u[0]-u[1]) > 1e-1); REQUIRES(fabs(u[1]-u[2]) > 1e-1); REQUIRES(fabs(u[2]-u[0]) > 1e-1);
  const V2 a = on(c, r, u[0]), b = on(c, r, u[1]), e = on(c, r, u[2]), X = v2(x); const D ar = d2::Area_Tri2(a, b, e); REQUIRES(ar > 1e-9 || ar < -1e-9); const D d = (x[0]-c[0])*(x[0]-c[0]) + (x[1]-c[1])*(x[1]-c[1]) - r*r; REQUIRES(d > 1e-4 || d < -1e-4);
  const int k = d2::DetDelaunay(a, b, e, X); ENSURES_L("0 inside the circumcircle, 2 outside", k == (d > 0 ? 2 : 0));
}
VC(vec2_delaunay_flat) { D a[2], b[2], x[2]; HAVOC(a); HAVOC(b); HAVOC(x); const D s = vc_real("s"); const V2 A = v2(a), B = v2(b), C = V2(a[0]+s*(b[0]-a[0]), a[1]+s*(b[1]-a[1])); ENSURES_L("3 for a degenerate triangle", d2::DetDelaunay(A, B, C, v2(x)) == 3); }
VC(vec2_cross_lines) { // crossing point p = a + s (b - a) = c + t (d - c)
  D p[2], e[2], f[2]; HAVOC(p); HAVOC(e); HAVOC(f); const D s = vc_real("s"), t = vc_real("t"), cr = e[0]*f[1]-e[1]*f[0]; REQUIRES_NONZERO(cr); REQUIRES(s != 0 && s != 1 && t != 0 && t != 1);
  const D a[2] = {p[0]-s*e[0], p[1]-s*e[1]}, b[2] = {p[0]+(1-s)*e[0], p[1]+(1-s)*e[1]}, c[2] = {p[0]-t*f[0], p[1]-t*f[1]}, d[2] = {p[0]+(1-t)*f[0], p[1]+(1-t)*f[1]};
  ENSURES_L("segments cross if and only if the crossing point is inside both", d2::IsCrossLines(a, b, c, d) == (s > 0 && s < 1 && t > 0 && t < 1));
}
VC(vec2_triangle) {
  D P[6]; HAVOC(P); const V2 a = v2(P), b = v2(P+2), c = v2(P+4); const D ar = d2::Area_Tri2(a, b, c), l = d2::SquareDistance(b, c), p = d2::SquareDistance(c, a), q = d2::SquareDistance(a, b); REQUIRES_POS(l, 1e-2);
  ENSURES_EQ_L("signed height over the opposite edge", d2::TriHeight(a, b, c)*sqrt(l), 2*ar); REQUIRES(ar > 1e-9 || ar < -1e-9); ENSURES_EQ_L("squared radius of the circumcircle", d2::SquareCircumradius(a, b, c)*16*ar*ar, l*p*q);
  V2 o(7, 7); ENSURES_L("found", d2::CenterCircumcircle(a, b, c, o)); ENSURES_EQ_L("equidistant", d2::SquareDistance(o, a), d2::SquareDistance(o, b)); ENSURES_EQ_L("equidistant", d2::SquareDistance(o, a), d2::SquareDistance(o, c)); ENSURES_EQ_L("at the radius", d2::SquareDistance(o, a), d2::SquareCircumradius(a, b, c));
}
VC(vec2_triangle_flat) { D a[2], b[2]; HAVOC(a); HAVOC(b); const D s = vc_real("s"); const V2 A = v2(a), B = v2(b), C = V2(a[0]+s*(b[0]-a[0]), a[1]+s*(b[1]-a[1])); V2 o(7, 7); ENSURES_L("no circumcircle of a flat triangle", !d2::CenterCircumcircle(A, B, C, o)); }
VC(vec2_mass_matrix) { D P[6]; HAVOC(P); const D rho = vc_real("rho"); const std::vector<V2> X = {v2(P), V2(7, 7), v2(P+2), v2(P+4)}; const unsigned ip[3] = {3, 0, 2}; D M[9]; d2::MakeMassMatrixTri(M, rho, ip, X); const D ar = d2::Area_Tri2(X[3], X[0], X[2]); for (int i = 0; i < 9; ++i) ENSURES_EQ_L("consistent mass of a triangle", M[i], rho*ar*(i%4 ? 1 : 2)/12); }

VC(vec3_linear) {
  D a[3], b[3]; HAVOC(a); HAVOC(b); const D s = vc_real("s"); const V3 A = v3(a), B = v3(b); V3 N = A;
  eq3(A + B, a[0]+b[0], a[1]+b[1], a[2]+b[2], "sum"); eq3(A - B, a[0]-b[0], a[1]-b[1], a[2]-b[2], "difference"); eq3(-A, -a[0], -a[1], -a[2], "negation"); eq3(-N, -a[0], -a[1], -a[2], "negation"); eq3(+A, a[0], a[1], a[2], "identity"); eq3(s*A, s*a[0], s*a[1], s*a[2], "scaling from the left"); eq3(A*s, s*a[0], s*a[1], s*a[2], "scaling from the right"); eq3(2*A, 2*a[0], 2*a[1], 2*a[2], "scaling by an integer");
  V3 C = A; C += B; eq3(C, a[0]+b[0], a[1]+b[1], a[2]+b[2], "in-place sum"); C = A; C -= B; eq3(C, a[0]-b[0], a[1]-b[1], a[2]-b[2], "in-place difference"); C = A; C *= s; eq3(C, s*a[0], s*a[1], s*a[2], "in-place scaling"); C = A; C = C; eq3(C, a[0], a[1], a[2], "assignment"); eq3(A.mult(B), a[0]*b[0], a[1]*b[1], a[2]*b[2], "component-wise product");
  eq3(V3(std::array<D, 3>{a[0], a[1], a[2]}), a[0], a[1], a[2], "from an array"); eq3(V3(std::vector<D>{a[0], a[1], a[2]}), a[0], a[1], a[2], "from a vector"); eq3(V3(), 0, 0, 0, "zero"); eq3(A.stlvec(), a[0], a[1], a[2], "to a vector"); const std::array<D, 3> ar = A; eq3(ar, a[0], a[1], a[2], "to an array"); for (int i = 0; i < 3; ++i) eq3(V3::Axis(i), i == 0, i == 1, i == 2, "coordinate axis"); C.setZero(); eq3(C, 0, 0, 0, "set zero");
  D o[3]; A.CopyTo(o); eq3(o, a[0], a[1], a[2], "copy"); A.CopyToScale(o, s); eq3(o, s*a[0], s*a[1], s*a[2], "scaled copy"); B.CopyTo(o); A.AddToScale(o, s); eq3(o, b[0]+s*a[0], b[1]+s*a[1], b[2]+s*a[2], "scaled addition"); C.SetVector(a[2], a[0], a[1]); eq3(C, a[2], a[0], a[1], "set"); std::vector<D> w = {s}; A.push_back_to_vector(w); ENSURES_L("appended", w.size() == 4 && w[0] == s && w[1] == a[0] && w[2] == a[1] && w[3] == a[2]); ENSURES_L("comparison", A == A && !(A != A));
}
VC(vec3_division) { D a[3]; HAVOC(a); const D s = vc_real("s"); REQUIRES(s >= 1e-5 || s <= -1e-5); V3 C = v3(a); C /= s; eq3(C, a[0]/s, a[1]/s, a[2]/s, "in-place division"); eq3(v3(a)/s, a[0]/s, a[1]/s, a[2]/s, "division"); eq3(v3(a)/4, a[0]/4, a[1]/4, a[2]/4, "division by an integer"); }
VC(vec3_comparison) { D a[3], b[3]; HAVOC(a); HAVOC(b); const V3 A = v3(a), B = v3(b); REQUIRES(fabs(a[0]-b[0]) > 1e-9 || fabs(a[1]-b[1]) > 1e-9 || fabs(a[2]-b[2]) > 1e-9); ENSURES_L("different vectors differ", A != B && !(A == B)); }
VC(vec3_products) {
  D a[3], b[3], c[3]; HAVOC(a); HAVOC(b); HAVOC(c); const V3 A = v3(a), B = v3(b), C = v3(c); const D dt = a[0]*b[0]+a[1]*b[1]+a[2]*b[2], sl = a[0]*a[0]+a[1]*a[1]+a[2]*a[2], sd = (a[0]-b[0])*(a[0]-b[0])+(a[1]-b[1])*(a[1]-b[1])+(a[2]-b[2])*(a[2]-b[2]);
  ENSURES_EQ_L("dot", A.dot(B), dt); ENSURES_EQ_L("dot", d2::Dot3(a, b), dt); ENSURES_EQ_L("dot", d2::Dot3(A, B), dt); D x[3]; spec::cross(x, a, b); eq3(A.cross(B), x[0], x[1], x[2], "cross"); eq3(d2::Cross(A, B), x[0], x[1], x[2], "cross"); D y[3]; d2::Cross(y, a, b); eq3(y, x[0], x[1], x[2], "cross");
  const D tp = x[0]*c[0]+x[1]*c[1]+x[2]*c[2]; ENSURES_EQ_L("triple product", d2::ScalarTripleProduct(A, B, C), tp); ENSURES_EQ_L("triple product", d2::ScalarTripleProduct(a, b, c), tp);
  ENSURES_EQ_L("squared length", A.squaredNorm(), sl); ENSURES_EQ_L("squared length", d2::SquareLength3(a), sl); ENSURES_EQ_L("length", A.norm(), sqrt(sl)); ENSURES_EQ_L("length", d2::Length3(a), sqrt(sl)); ENSURES_EQ_L("length", d2::Length3(A), sqrt(sl)); ENSURES_EQ_L("squared distance", d2::SquareDistance3(a, b), sd); ENSURES_EQ_L("squared distance", d2::SquareDistance3(A, B), sd); ENSURES_EQ_L("distance", d2::Distance3(a, b), sqrt(sd)); ENSURES_EQ_L("distance", d2::Distance3(A, B), sqrt(sd));
  D e[3]; HAVOC(e); D o[3]; d2::AverageTwo3(o, a, b); eq3(o, (a[0]+b[0])/2, (a[1]+b[1])/2, (a[2]+b[2])/2, "average of two"); d2::AverageFour3(o, a, b, c, e); eq3(o, (a[0]+b[0]+c[0]+e[0])/4, (a[1]+b[1]+c[1]+e[1])/4, (a[2]+b[2]+c[2]+e[2])/4, "average of four"); B.CopyTo(o); d2::Add3(o, a); eq3(o, a[0]+b[0], a[1]+b[1], a[2]+b[2], "accumulation");
}
VC(vec3_normalize) { D a[3]; HAVOC(a); const D l = sqrt(a[0]*a[0]+a[1]*a[1]+a[2]*a[2]); REQUIRES_POS(l, 1e-2); eq3(v3(a).normalized(), a[0]/l, a[1]/l, a[2]/l, "unit vector of the same direction"); V3 A = v3(a); A.normalize(); eq3(A, a[0]/l, a[1]/l, a[2]/l, "unit vector of the same direction"); A = v3(a); d2::Normalize3(A); eq3(A, a[0]/l, a[1]/l, a[2]/l, "unit vector of the same direction"); const D b[3] = {a[0], a[1], a[2]}; d2::Normalize3(a); eq3(a, b[0]/l, b[1]/l, b[2]/l, "unit vector of the same direction"); }
