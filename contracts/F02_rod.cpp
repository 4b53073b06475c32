// elastic rods: strain measures, energies, gradients, Hessians
#include "vc.h"
#include "spec.h"
#define DFM2_HEADER_ONLY
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/fem_rod2.h"
#include "delfem2/fem_rod3_straight.h"
#include "delfem2/fem_rod3_darboux.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec3d V3; typedef d2::CMat3d M3;
// a rod element with material frames; x, t: perturbations of vertices and twist
struct Rod { D p[3][3], raw[2][3], x[9], t[2]; V3 P[3], S[2]; };
static V3 mk(const D *a) { return V3(a[0], a[1], a[2]); }
static void setup(Rod &r) {
  vc_reals(&r.p[0][0], 9, "p"); vc_reals(&r.raw[0][0], 6, "raw"); ZEROS(r.x); ZEROS(r.t);
  D U[2][3], l[2];
  for (int e = 0; e < 2; ++e) {
    D d[3]; spec::sub3(d, r.p[e+1], r.p[e]); REQUIRES_POS(spec::dot3(d, d), 1e-2); l[e] = std::sqrt(spec::dot3(d, d)); for (int i = 0; i < 3; ++i) U[e][i] = d[i]/l[e];
    D s[3], S[3], T[3]; spec::cross(s, U[e], r.raw[e]); REQUIRES_POS(spec::dot3(s, s), 1e-2); spec::unit3(S, s); spec::cross(T, U[e], S);
    // first-order change of the director: parallel transport along the edge change, plus twist
    D sd = 0; for (int i = 0; i < 3; ++i) sd += S[i]*(r.x[(e+1)*3+i] - r.x[e*3+i]);
    D S1[3]; for (int i = 0; i < 3; ++i) S1[i] = S[i] - sd/l[e]*U[e][i] + r.t[e]*T[i];
    r.S[e] = mk(S1);
  }
  for (int k = 0; k < 3; ++k) { D q[3]; for (int i = 0; i < 3; ++i) q[i] = r.p[k][i] + r.x[k*3+i]; r.P[k] = mk(q); }
}
static void frames(D F[3][3], const Rod &r, int e) { // independent: columns d1, d2, tangent
  D d[3]; for (int i = 0; i < 3; ++i) d[i] = r.P[e+1].p[i] - r.P[e].p[i]; const D l = std::sqrt(spec::dot3(d, d));
  for (int i = 0; i < 3; ++i) { F[2][i] = d[i]/l; F[0][i] = r.S[e].p[i]; } spec::cross(F[1], F[2], F[0]); }
static void darboux(D C[3], const Rod &r, D &Y) {
  D F[3][3], G[3][3]; frames(F, r, 0); frames(G, r, 1);
  Y = 1; for (int i = 0; i < 3; ++i) Y += spec::dot3(F[i], G[i]);
  for (int i = 0; i < 3; ++i) { const int j = (i+1)%3, k = (i+2)%3; C[i] = spec::dot3(F[j], G[k]) - spec::dot3(F[k], G[j]); } }

VC(rod_darboux_vector) {
  Rod r; setup(r); D C[3], Y; darboux(C, r, Y); REQUIRES_POS(Y, 1e-2);
  auto c = d2::Darboux_Rod(r.P, r.S); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("discrete Darboux vector", c.p[i]*Y, C[i]);
}
VC(rod_constraint) {
  Rod r; setup(r); D C[3], Y, c[3], dt[3][2]; V3 dp[3][3]; darboux(C, r, Y); REQUIRES_POS(Y, 1e-2);
  d2::CdC_Rod(c, dp, dt, r.P, r.S);
  for (int k = 0; k < 3; ++k) {
    ENSURES_EQ_L("discrete Darboux vector", c[k]*Y, C[k]);
    for (int i = 0; i < 9; ++i) ENSURES_EQ_L("derivative w.r.t. the vertices", dp[k][i/3].p[i%3], VC_DIFF(c[k], r.x[i]));
    for (int i = 0; i < 2; ++i) ENSURES_EQ_L("derivative w.r.t. the twist", dt[k][i], VC_DIFF(c[k], r.t[i]));
  }
}
VC(rod_energy_approx) {
  Rod r; setup(r); D C[3], Y, c[3], dt[3][2], st[3], d0[3]; V3 dp[3][3]; darboux(C, r, Y); REQUIRES_POS(Y, 1e-2); HAVOC(st); HAVOC(d0);
  V3 dW[3], ddtP[2][3]; D dWt[2], ddtt[2][2]; M3 dd[3][3];
  const D W = d2::WdWddW_Rod3Approx(dW, dWt, dd, ddtP, ddtt, st, r.P, r.S, mk(d0));
  D w = 0; for (int k = 0; k < 3; ++k) { const D e = C[k]/Y - d0[k]; w += 0.5*st[k]*e*e; }
  ENSURES_EQ_L("bend-twist energy", W, w);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("energy gradient (vertices)", dW[i/3].p[i%3], VC_DIFF(W, r.x[i]));
  for (int i = 0; i < 2; ++i) ENSURES_EQ_L("energy gradient (twist)", dWt[i], VC_DIFF(W, r.t[i]));
  // Gauss-Newton Hessian
  d2::CdC_Rod(c, dp, dt, r.P, r.S);
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) { D s = 0; for (int k = 0; k < 3; ++k) s += st[k]*dp[k][i/3].p[i%3]*dp[k][j/3].p[j%3]; ENSURES_EQ_L("Gauss-Newton Hessian", dd[i/3][j/3].p_[(i%3)*3+j%3], s); }
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 9; ++j) { D s = 0; for (int k = 0; k < 3; ++k) s += st[k]*dt[k][i]*dp[k][j/3].p[j%3]; ENSURES_EQ_L("Gauss-Newton Hessian (twist/vertex)", ddtP[i][j/3].p[j%3], s); }
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { D s = 0; for (int k = 0; k < 3; ++k) s += st[k]*dt[k][i]*dt[k][j]; ENSURES_EQ_L("Gauss-Newton Hessian (twist)", ddtt[i][j], s); }
  // hair variant: the same numbers in a 4-dof-per-vertex layout
  D hW[3][4], hdd[3][3][4][4];
  const D W2 = d2::WdWddW_HairApprox(hW, hdd, st, r.P, r.S, mk(d0));
  ENSURES_EQ_L("hair energy", W2, w);
  for (int i = 0; i < 3; ++i) for (int d = 0; d < 3; ++d) ENSURES_EQ_L("hair gradient", hW[i][d], dW[i].p[d]);
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("hair twist gradient", hW[i][3], i < 2 ? dWt[i] : 0);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) {
    const D e = (a == 3 && i == 2) || (b == 3 && j == 2) ? 0 : a < 3 && b < 3 ? dd[i][j].p_[a*3+b] : a == 3 && b == 3 ? ddtt[i][j] : a == 3 ? ddtP[i][j].p[b] : ddtP[j][i].p[a];
    ENSURES_EQ_L("hair Hessian", hdd[i][j][a][b], e); }
}
VC(rod_energy_exact) {
  Rod r; setup(r); D C[3], Y, d0[3], st[3]; darboux(C, r, Y); REQUIRES_POS(Y, 1e-2); HAVOC(d0); HAVOC(st);
  V3 dW[3], ddtP[2][3]; D dWt[2], ddtt[2][2]; M3 dd[3][3];
  const D W = d2::WdWddW_Rod3Exact(dW, dWt, dd, ddtP, ddtt, st, r.P, r.S, mk(d0));
  D w = 0; for (int k = 0; k < 3; ++k) { const D e = C[k]/Y - d0[k]; w += 0.5*st[k]*e*e; }
  ENSURES_EQ_L("bend-twist energy", W, w);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("energy gradient (vertices)", dW[i/3].p[i%3], VC_DIFF(W, r.x[i]));
  for (int i = 0; i < 2; ++i) ENSURES_EQ_L("energy gradient (twist)", dWt[i], VC_DIFF(W, r.t[i]));
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian (vertices)", dd[i/3][j/3].p_[(i%3)*3+j%3], VC_DIFF(dW[i/3].p[i%3], r.x[j]));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian (twist/vertex)", ddtP[i][j/3].p[j%3], VC_DIFF(dWt[i], r.x[j]));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ENSURES_EQ_L("Hessian (twist)", ddtt[i][j], VC_DIFF(dWt[i], r.t[j]));
}
VC(rod_frame_products) { // weighted products of the directors of the two frames
  Rod r; setup(r); D F[3][3], G[3][3], off[3] = {0, 0, 0}; frames(F, r, 0); frames(G, r, 1); V3 dW[3], ddtP[2][3]; D dWt[2], ddtt[2][2]; M3 dd[3][3];
  const D W = d2::WdWddW_DotFrame(dW, dWt, dd, ddtP, ddtt, r.P, r.S, off); D w = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w += (3*i+5*j+7)*spec::dot3(F[i], G[j]); ENSURES_EQ_L("weighted sum of the products", W, w);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("gradient (vertices)", dW[i/3].p[i%3], VC_DIFF(W, r.x[i]));
  for (int i = 0; i < 2; ++i) ENSURES_EQ_L("gradient (twist)", dWt[i], VC_DIFF(W, r.t[i]));
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian (vertices)", dd[i/3][j/3].p_[(i%3)*3+j%3], VC_DIFF(dW[i/3].p[i%3], r.x[j]));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian (twist/vertex)", ddtP[i][j/3].p[j%3], VC_DIFF(dWt[i], r.x[j]));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) ENSURES_EQ_L("Hessian (twist)", ddtt[i][j], VC_DIFF(dWt[i], r.t[j]));
}
VC(rod_frame_derivative) {
  Rod r; setup(r); D F[3][3]; frames(F, r, 0);
  D d[3]; spec::sub3(d, r.p[1], r.p[0]); const D l = std::sqrt(spec::dot3(d, d));
  V3 Fr[3] = {mk(F[0]), mk(F[1]), mk(F[2])}, Ft[3]; M3 Fv[3]; D q[3]; HAVOC(q);
  d2::DiffFrameRod(Fv, Ft, l, Fr);
  for (int k = 0; k < 3; ++k) for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) ENSURES_EQ_L("derivative of the frame w.r.t. the edge vector", Fv[k].p_[i*3+j], VC_DIFF(F[k][i], r.x[3+j]));
    ENSURES_EQ_L("derivative of the frame w.r.t. the twist", Ft[k].p[i], VC_DIFF(F[k][i], r.t[0]));
  }
  for (unsigned k = 0; k < 3; ++k) {
    M3 vv; V3 vt; D tt; d2::DifDifFrameRod(vv, vt, tt, k, l, mk(q), Fr);
    // exact second variation of q . d_k along the transported frame
    D g = 0; for (int i = 0; i < 3; ++i) g += q[i]*Ft[k].p[i];
    ENSURES_EQ_L("second twist derivative", tt, VC_DIFF(g, r.t[0]));
    for (int j = 0; j < 3; ++j) ENSURES_EQ_L("mixed second derivative", vt.p[j], VC_DIFF(g, r.x[3+j]));
  }
}
VC(rod_frame_transport) {
  D v[3], raw[3], du[3], th = vc_real("dtheta"), U[3], s[3], S[3], T[3], w[3]; HAVOC(v); HAVOC(raw); HAVOC(du);
  REQUIRES_POS(spec::dot3(v, v), 1e-2); spec::unit3(U, v); spec::cross(s, U, raw); REQUIRES_POS(spec::dot3(s, s), 1e-2); spec::unit3(S, s); spec::cross(T, U, S);
  for (int i = 0; i < 3; ++i) w[i] = v[i]+du[i]; REQUIRES_POS(spec::dot3(w, w), 1e-2); D W[3]; spec::unit3(W, w);
  D x[3]; spec::cross(x, U, W); REQUIRES(spec::dot3(x, x) > 1.1e-8); // (almost) parallel edges: next contract
  V3 f[3]; d2::RodFrameTrans(f, mk(S), mk(v), mk(du), th);
  vc_same<3>(f[2].p, W, "tangent follows the edge");
  // smallest rotation U -> W: R a = a + x cross a + x cross (x cross a)/(1+U.W)
  const D c = std::cos(th), sn = std::sin(th), k = 1 + spec::dot3(U, W);
  for (int e = 0; e < 2; ++e) { D a[3], b[3], d[3]; for (int i = 0; i < 3; ++i) a[i] = e ? c*T[i] - sn*S[i] : c*S[i] + sn*T[i];
    spec::cross(b, x, a); spec::cross(d, x, b); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("directors: twist, then smallest rotation", f[e].p[i], a[i] + b[i] + d[i]/k); }
}
VC(rod_frame_twist) {
  D v[3], raw[3], th = vc_real("dtheta"), U[3], s[3], S[3], T[3]; HAVOC(v); HAVOC(raw);
  REQUIRES_POS(spec::dot3(v, v), 1e-2); spec::unit3(U, v); spec::cross(s, U, raw); REQUIRES_POS(spec::dot3(s, s), 1e-2); spec::unit3(S, s); spec::cross(T, U, S);
  V3 f[3]; d2::RodFrameTrans(f, mk(S), mk(v), V3(0,0,0), th);
  for (int i = 0; i < 3; ++i) { ENSURES_EQ_L("tangent unchanged", f[2].p[i], U[i]); ENSURES_EQ_L("pure twist d1", f[0].p[i], std::cos(th)*S[i] + std::sin(th)*T[i]); ENSURES_EQ_L("pure twist d2", f[1].p[i], std::cos(th)*T[i] - std::sin(th)*S[i]); }
}
VC(rod_straight) {
  D p[3][3], c[3], dc[3][3][3], u[3], v[3], x[3]; vc_reals(&p[0][0], 9, "p");
  spec::sub3(u, p[1], p[0]); spec::sub3(v, p[2], p[1]); REQUIRES_POS(spec::dot3(u, u), 1e-2); REQUIRES_POS(spec::dot3(v, v), 1e-2);
  const D lu = std::sqrt(spec::dot3(u, u)), lv = std::sqrt(spec::dot3(v, v)); REQUIRES_POS(1 + spec::dot3(u, v)/(lu*lv), 1e-2);
  d2::CdC_Rod3BendStraight<double>(c, dc, p);
  spec::cross(x, u, v); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("bending strain tan(angle/2) along the binormal", c[k]*(lu*lv + spec::dot3(u, v)), x[k]);
  for (int k = 0; k < 3; ++k) for (int i = 0; i < 9; ++i) ENSURES_EQ_L("derivative of the bending strain", dc[k][i/3][i%3], VC_DIFF(c[k], p[i/3][i%3]));
  V3 P[3] = {mk(p[0]), mk(p[1]), mk(p[2])}, dW[3]; M3 dd[3][3]; const D W = d2::WdWddW_Rod3BendStraight(dW, dd, P);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("gradient of the bending energy", dW[i/3].p[i%3], VC_DIFF(W, p[i/3][i%3]));
  for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) ENSURES_EQ_L("Hessian of the bending energy", dd[i/3][j/3].p_[(i%3)*3+j%3], VC_DIFF(dW[i/3].p[i%3], p[j/3][j%3]));
  ENSURES_EQ_L("bending energy", W, spec::dot3(c, c)/2);
}
VC(rod2) {
  D p[3][2], L[2], s0 = vc_real("s01"), s1 = vc_real("s12"), sb = vc_real("sb"), W, dW[3][2], dd[3][3][2][2]; vc_reals(&p[0][0], 6, "p"); HAVOC(L);
  REQUIRES_POS(L[0], 1e-2); REQUIRES_POS(L[1], 1e-2);
  D u[2] = {p[1][0]-p[0][0], p[1][1]-p[0][1]}, v[2] = {p[2][0]-p[1][0], p[2][1]-p[1][1]};
  const D uu = u[0]*u[0]+u[1]*u[1], vv = v[0]*v[0]+v[1]*v[1]; REQUIRES_POS(uu, 1e-2); REQUIRES_POS(vv, 1e-2); const D lu = std::sqrt(uu), lv = std::sqrt(vv);
  REQUIRES_POS(1 + (u[0]*v[0]+u[1]*v[1])/(lu*lv), 1e-2);
  d2::WdWddW_Rod2(W, dW, dd, p, L, s0, s1, sb);
  for (int i = 0; i < 6; ++i) ENSURES_EQ_L("gradient of the 2D rod energy", dW[i/2][i%2], VC_DIFF(W, p[i/2][i%2]));
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) ENSURES_EQ_L("symmetric Hessian", dd[i/2][j/2][i%2][j%2], dd[j/2][i/2][j%2][i%2]);
  const D tb = (u[0]*v[1]-u[1]*v[0])/(lu*lv + u[0]*v[0]+u[1]*v[1]);
  const D e = 0.5*s0*(lu-L[0])*(lu-L[0]) + 0.5*s1*(lv-L[1])*(lv-L[1]) + 0.5*sb*tb*tb;
  ENSURES_EQ_L("2D rod energy", W, e);
  // Gauss-Newton Hessian of the three strains
  const D T[3] = {lu, lv, tb}, w[3] = {s0, s1, sb};
  for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) { D h = 0; for (int k = 0; k < 3; ++k) h += w[k]*VC_DIFF(T[k], p[i/2][i%2])*VC_DIFF(T[k], p[j/2][j%2]);
    ENSURES_EQ_L("Gauss-Newton Hessian of the 2D rod energy", dd[i/2][j/2][i%2][j%2], h); }
}
