// continuous collision detection
// @opts: prune=2
// @stub: coplanar_coefficients,coplanar_cubic,coplanar_cubic_monotone,coplanar_cubic_stationary,coplanar_quadratic,coplanar_linear /FindRootCubic_Bisect/ stub_root
// @stub: contact_face_vertex,contact_face_vertex_static /FindCoplanerInterp/ stub_time
// @stub: contact_face_vertex_static /Nearest_Edge_Point/ stub_edge
// @bounded: bisect_run coplanar_run contact_face_vertex_run
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_ccd.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec3d V3;
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static D sq(const V3 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]+a.p[2]*a.p[2]; }
static D ip(const V3 &a, const V3 &b) { return a.p[0]*b.p[0]+a.p[1]*b.p[1]+a.p[2]*b.p[2]; }
static V3 cr(const V3 &a, const V3 &b) { return V3(a.p[1]*b.p[2]-a.p[2]*b.p[1], a.p[2]*b.p[0]-a.p[0]*b.p[2], a.p[0]*b.p[1]-a.p[1]*b.p[0]); }
static D det(const V3 &a, const V3 &b, const V3 &c) { return ip(a, cr(b, c)); }

// --- one Newton step on half the squared distance of two points on moving edges
VC(edge_edge_step) {
  D x[24], p[3]; HAVOC(x); HAVOC(p); V3 P[8]; for (int i = 0; i < 8; ++i) P[i] = v3(x+3*i); auto dist = [&](D s, D t, D u) { return (1-s)*((1-u)*P[0] + u*P[1]) + s*((1-u)*P[2] + u*P[3]) - (1-t)*((1-u)*P[4] + u*P[5]) - t*((1-u)*P[6] + u*P[7]); };
  D q[3] = {p[0], p[1], p[2]}; const D l = d2::Nearest_LineSeg_LineSeg_CCD_Iteration(q, P[0], P[1], P[2], P[3], P[4], P[5], P[6], P[7], 1); const V3 v = dist(p[0], p[1], p[2]); ENSURES_EQ_L("distance at the given parameters", l, sqrt(sq(v))); const D e = sq(v)/2; D g[3], H[3][3], tr = 0; for (int i = 0; i < 3; ++i) { g[i] = VC_DIFF(e, p[i]); for (int j = 0; j < 3; ++j) H[i][j] = VC_DIFF(g[i], p[j]); tr += H[i][i]; }
  for (int i = 0; i < 3; ++i) { REQUIRES(q[i] > 0); REQUIRES(q[i] < 1); } // the step is not clamped
  for (int i = 0; i < 3; ++i) { D r = g[i]; for (int j = 0; j < 3; ++j) r += (H[i][j] + (i == j ? tr*1e-10 + 1e-20 : 0))*(q[j]-p[j]); ENSURES_EQ_L("Newton step of half the squared distance", r, 0); }
}
VC(edge_edge_clamp) { D x[24], p[3]; HAVOC(x); HAVOC(p); V3 P[8]; for (int i = 0; i < 8; ++i) P[i] = v3(x+3*i); d2::Nearest_LineSeg_LineSeg_CCD_Iteration(p, P[0], P[1], P[2], P[3], P[4], P[5], P[6], P[7], 1); for (int i = 0; i < 3; ++i) { ENSURES_GE_L("parameters stay in [0,1]", p[i], 0); ENSURES_GE_L("parameters stay in [0,1]", 1, p[i]); } }

// --- the time four moving points are coplanar
static D vc_k[4], vc_root; static int vc_nroot;
static D cub(const D *k, D x) { return k[0] + k[1]*x + k[2]*x*x + k[3]*x*x*x; }
extern "C" D stub_root(D r0, D r1, D f0, D f1, D k0, D k1, D k2, D k3) { // contract of the bisection
  vc_k[0] = k0; vc_k[1] = k1; vc_k[2] = k2; vc_k[3] = k3; ENSURES_EQ_L("value at the start", f0, cub(vc_k, r0)); ENSURES_EQ_L("value at the end", f1, cub(vc_k, r1)); ENSURES_GE_L("change of sign", 0, f0*f1); ENSURES_GE_L("bracket inside the time step", r0, 0); ENSURES_GE_L("bracket inside the time step", 1, r1); ENSURES_GE_L("ordered bracket", r1, r0); const D r = vc_real("root"); REQUIRES(r >= r0); REQUIRES(r <= r1); vc_root = r; ++vc_nroot; return r; }
VC(coplanar_coefficients) { // the cubic polynomial is six times the volume at time t
  D x[24]; HAVOC(x); V3 S[4], E[4]; for (int i = 0; i < 4; ++i) { S[i] = v3(x+3*i); E[i] = v3(x+12+3*i); } const D f0 = det(S[1]-S[0], S[2]-S[0], S[3]-S[0]), f1 = det(E[1]-E[0], E[2]-E[0], E[3]-E[0]); REQUIRES(f0*f1 < 0); D r; vc_nroot = 0; ENSURES_L("found if the volume changes its sign", d2::FindCoplanerInterp(r, S[0], S[1], S[2], S[3], E[0], E[1], E[2], E[3])); 
  if (vc_nroot == 1) { ENSURES_L("the root is returned", r == vc_root); const D t = vc_real("t"); V3 M[4]; for (int i = 0; i < 4; ++i) M[i] = (1-t)*S[i] + t*E[i]; ENSURES_EQ_L("volume at time t", cub(vc_k, t), det(M[1]-M[0], M[2]-M[0], M[3]-M[0])); }
}
// four points whose volume is any given cubic polynomial
static bool coplanar(D &r, const D *k) { const V3 s0(0,0,0), s3(k[0], k[1], 0), w3(0, k[2], k[3]), s1(0,1,0), w1(-1,0,0), s2(0,0,1), w2(0,-1,0); return d2::FindCoplanerInterp(r, s0, s1, s2, s3, s0, s1+w1, s2+w2, s3+w3); }
static void found(const D *k, bool f, D r, D w, bool always = false) { if (f) { ENSURES_GE_L("time in the step", r, 0); ENSURES_GE_L("time in the step", 1, r); if (vc_nroot == 0) ENSURES_EQ_L("coplanar at the time", cub(k, r), 0); } else ENSURES_L("not coplanar at any time", cub(k, 0)*cub(k, w) > 0); }
VC(coplanar_cubic) { // stationary at a and a + h^2
  D k[4], r = 7; const D a = vc_real("a"), h = vc_real("h"), g = vc_real("g"), b = a + h*h, w = vc_real("w"); k[0] = vc_real("k0"); k[3] = vc_choose(2) ? g*g : -(g*g); REQUIRES(g*g > 1e-6); REQUIRES(w >= 0); REQUIRES(w <= 1); k[2] = -1.5*k[3]*(a+b); k[1] = 3*k[3]*a*b; vc_nroot = 0; const bool f = coplanar(r, k); found(k, f, r, w);
}
VC(coplanar_cubic_monotone) { D k[4], r = 7; const D m = vc_real("m"), h = vc_real("h"), g = vc_real("g"), w = vc_real("w"); k[0] = vc_real("k0"); k[3] = vc_choose(2) ? g*g : -(g*g); REQUIRES(g*g > 1e-6); REQUIRES(h*h > 1e-6); REQUIRES(w >= 0); REQUIRES(w <= 1); k[2] = -3*k[3]*m; k[1] = 3*k[3]*(m*m + h*h); vc_nroot = 0; const bool f = coplanar(r, k); found(k, f, r, w); }
VC(coplanar_quadratic) { D k[4], r = 7; const D m = vc_real("m"), w = vc_real("w"); k[3] = 0; k[2] = vc_real("k2"); REQUIRES(k[2] > 1e-6 || k[2] < -1e-6); k[1] = -2*k[2]*m; k[0] = vc_real("k0"); REQUIRES(w >= 0); REQUIRES(w <= 1); vc_nroot = 0; const bool f = coplanar(r, k); found(k, f, r, w); }
VC(coplanar_linear) { D k[4], r = 7; const D w = vc_real("w"); k[3] = k[2] = 0; k[1] = vc_real("k1"); k[0] = vc_real("k0"); REQUIRES(w >= 0); REQUIRES(w <= 1); vc_nroot = 0; const bool f = coplanar(r, k); found(k, f, r, w); }
VC(coplanar_run) { D k[4], r = 7; for (int i = 0; i < 4; ++i) k[i] = vc_real("k"); const unsigned c = vc_choose(4); if (c == 1) k[3] = 0; if (c == 2) k[3] = k[2] = 0; const bool f = coplanar(r, k); D lo = 1e99, hi = -1e99, sc = fabs(k[0])+fabs(k[1])+fabs(k[2])+fabs(k[3]); for (int i = 0; i <= 1000; ++i) { const D y = cub(k, i/1000.); lo = std::min(lo, y); hi = std::max(hi, y); } REQUIRES(sc > 1e-2 && (lo > 1e-4*sc || hi < -1e-4*sc || (lo < -1e-9 && hi > 1e-9))); ENSURES_L("found if and only if the volume vanishes", f == (lo <= 0 && hi >= 0)); if (f) ENSURES_L("volume vanishes at the time", r >= 0 && r <= 1 && fabs(cub(k, r)) <= 6e-5*3*sc); }
VC(bisect_run) { D k[4]; for (int i = 0; i < 4; ++i) k[i] = vc_real("k"); D a = vc_real("a"), b = a + fabs(vc_real("b")); const D fa = cub(k, a), fb = cub(k, b); REQUIRES(fa*fb <= 0 && b-a < 10 && b-a > 1e-3); const D r = d2::geo_ccd::FindRootCubic_Bisect(a, b, fa, fb, k[0], k[1], k[2], k[3]), e = (b-a)*2e-5; const D l = cub(k, std::max(a, r-e)), h = cub(k, std::min(b, r+e)); ENSURES_L("root in the bracket to the halved width", r >= a && r <= b && (l*h <= 0 || cub(k, r) == 0)); }
VC(bisect_first) { // one halving keeps the change of sign; the end or middle is returned if it is a root
  D k[4]; for (int i = 0; i < 4; ++i) k[i] = vc_real("k"); const D a = vc_real("a"), b = vc_real("b"); REQUIRES(a < b); const unsigned c = vc_choose(2); if (c == 0) k[0] = -(k[1]*a + k[2]*a*a + k[3]*a*a*a); else k[0] = -(k[1]*b + k[2]*b*b + k[3]*b*b*b); const D fa = cub(k, a), fb = cub(k, b); REQUIRES((c ? fa : fb) > 0 || (c ? fa : fb) < 0); ENSURES_EQ_L("end that is a root", d2::geo_ccd::FindRootCubic_Bisect(a, b, fa, fb, k[0], k[1], k[2], k[3]), c ? b : a);
}
// --- a vertex against a moving face
static D vc_time; static bool vc_found;
extern "C" bool stub_time(D &r, const V3 &, const V3 &, const V3 &, const V3 &, const V3 &, const V3 &, const V3 &, const V3 &) { r = vc_time; return vc_found; }
static V3 vc_at(const V3 &a, const V3 &b, const V3 &c, D r0, D r1) { return r0*a + r1*b + (1-r0-r1)*c; }
VC(contact_face_vertex) { // fixed face, the vertex starts above the inside of the face (f) and passes through the plane inside it (r)
  D q[9]; HAVOC(q); const D r0 = vc_real("r0"), r1 = vc_real("r1"), f0 = vc_real("f0"), f1 = vc_real("f1"), h = vc_real("h"), g = vc_real("g"); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), n = cr(b-a, c-a), T = (r0-f0)*(a-c) + (r1-f1)*(b-c), X = vc_at(a, b, c, r0, r1), S = vc_at(a, b, c, f0, f1) + h*n; REQUIRES(sq(n) > 1e-4); REQUIRES(h > 1e-3 || h < -1e-3); REQUIRES(g > 1.01); REQUIRES(g < 100); vc_time = 1/g; vc_found = true;
  REQUIRES((g*g-1)*(sq(T) + h*h*sq(n)) >= 0); REQUIRES(h*h*(g-1)*sq(n)*sq(n) > 0); // follow from g > 1 and h != 0
  REQUIRES(r0 > 1e-2); REQUIRES(r1 > 1e-2); REQUIRES(1-r0-r1 > 1e-2); REQUIRES(f0 > 1e-2); REQUIRES(f1 > 1e-2); REQUIRES(1-f0-f1 > 1e-2); ENSURES_L("contact if the vertex passes through the face", d2::IsContact_FV_CCD2(0, 1, 2, 3, a, b, c, S, a, b, c, S + g*(X-S)));
}
extern "C" V3 stub_edge(const V3 &, const V3 &, const V3 &) { const D x = vc_real("ex"), y = vc_real("ey"), z = vc_real("ez"); return V3(x, y, z); } // nothing is known about the nearest point of an edge
VC(contact_face_vertex_static) { // fixed face, vertex passes the plane outside the face
  D q[9], d[3]; HAVOC(q); HAVOC(d); const D r0 = vc_real("r0"), r1 = vc_real("r1"), r2 = 1-r0-r1, t = vc_real("t"); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), W = v3(d), n = cr(b-a, c-a), X = r0*a + r1*b + r2*c; REQUIRES(sq(n) > 1e-4); REQUIRES(ip(n, W) > 1e-4); REQUIRES(t > 1e-2); REQUIRES(t < 0.99); vc_time = t; vc_found = true;
  const unsigned z = vc_choose(3); REQUIRES((z == 0 ? r0 : z == 1 ? r1 : r2) < -1e-2); ENSURES_L("no contact if the vertex passes outside the face", !d2::IsContact_FV_CCD2(0, 1, 2, 3, a, b, c, X - t*W, a, b, c, X + (1-t)*W));
}
VC(contact_face_vertex_run) {
  D q[9], d[3]; HAVOC(q); HAVOC(d); const D r0 = vc_real("r0"), r1 = vc_real("r1"), r2 = 1-r0-r1, t = vc_real("t"); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), W = v3(d), n = cr(b-a, c-a), X = r0*a + r1*b + r2*c; REQUIRES(sq(n) > 1e-2 && fabs(ip(n, W)) > 1e-2 && t > 1e-2 && t < 0.99 && fabs(r0) > 1e-1 && fabs(r1) > 1e-1 && fabs(r2) > 1e-1 && sq(W) < 10*sq(n) && sq(n) < 1e4);
  ENSURES_L("contact if and only if the vertex passes through the face", d2::IsContact_FV_CCD2(0, 1, 2, 3, a, b, c, X - t*W, a, b, c, X + (1-t)*W) == (r0 > 0 && r1 > 0 && r2 > 0));
}
VC(contact_apart) { // the vertex stays on one side of the plane of the initial face
  D x[24]; HAVOC(x); V3 S[4], E[4]; for (int i = 0; i < 4; ++i) { S[i] = v3(x+3*i); E[i] = v3(x+12+3*i); } const V3 n = cr(S[1]-S[0], S[2]-S[0]); const D s = vc_choose(2) ? 1 : -1; REQUIRES(s*ip(S[0]-S[3], n) > 0); for (int i = 0; i < 3; ++i) REQUIRES(s*ip(E[i]-E[3], n) > 0); ENSURES_L("no contact", !d2::IsContact_FV_CCD2(0, 1, 2, 3, S[0], S[1], S[2], S[3], E[0], E[1], E[2], E[3]));
}
