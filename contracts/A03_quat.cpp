// quaternion algebra and its agreement with rotation matrices
#include "vc.h"
#include "spec.h"
#define DFM2_HEADER_ONLY
#include "delfem2/quat.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3.h"
namespace d2 = delfem2;
static void unitq(double *q, const char *nm) { double r[4]; vc_reals(r, 4, nm); REQUIRES_NONZERO(spec::dot<4>(r, r)); spec::unit4(q, r); }

VC(quat_algebra) {
  double p[4], q[4], r[4], a[4], b[4], c[4], s = vc_real("s"); HAVOC(p); HAVOC(q); HAVOC(r);
  d2::QuatQuat(a, p, q); spec::qmul(b, p, q); vc_same<4>(a, b, "Hamilton product");
  auto m = d2::Mult_QuatQuat(p, q); vc_same<4>(m.data(), b, "Mult_QuatQuat agrees");
  d2::QuatQuat(b, a, r); d2::QuatQuat(c, q, r); double e[4]; d2::QuatQuat(e, p, c); vc_same<4>(b, e, "associative");
  ENSURES_EQ_L("norm multiplicative", d2::Dot_Quat(a, a), d2::Dot_Quat(p, p)*d2::Dot_Quat(q, q));
  ENSURES_EQ_L("Dot_Quat", d2::Dot_Quat(p, q), spec::dot<4>(p, q));
  ENSURES_EQ_L("Length_Quat", d2::Length_Quat(p), std::sqrt(spec::dot<4>(p, p)));
  d2::Quat_Identity(e); d2::QuatQuat(b, e, p); vc_same<4>(b, p, "identity is neutral"); d2::QuatQuat(b, p, e); vc_same<4>(b, p, "identity is neutral");
  REQUIRES_NONZERO(spec::dot<4>(p, p));
  d2::Inverse_Quat(b, p); d2::QuatQuat(c, p, b); vc_same<4>(c, e, "q q^-1 = 1"); d2::QuatQuat(c, b, p); vc_same<4>(c, e, "q^-1 q = 1");
  double n[4]; d2::Copy_Quat(n, p); vc_same<4>(n, p, "Copy_Quat"); d2::Normalize_Quat(n);
  ENSURES_EQ_L("normalised length 1", spec::dot<4>(n, n), 1);
  for (int i = 0; i < 4; ++i) ENSURES_EQ_L("normalise keeps direction", n[i]*d2::Length_Quat(p), p[i]);
  d2::CQuat<double> P(p), Q(q), U = P + Q, V = P - Q, W = P * Q, X = P * s, Y = P.conjugate(), Z = P;
  Z.normalize(); vc_same<4>(Z.p, n, "CQuat::normalize agrees"); ENSURES_EQ_L("CQuat::norm", P.norm(), d2::Length_Quat(p));
  vc_same<4>(W.p, a, "CQuat operator*");
  for (int i = 0; i < 4; ++i) { ENSURES_EQ_L("CQuat +", U.p[i], p[i]+q[i]); ENSURES_EQ_L("CQuat -", V.p[i], p[i]-q[i]); ENSURES_EQ_L("CQuat * scalar", X.p[i], s*p[i]); ENSURES_EQ_L("conjugate", Y.p[i], i < 3 ? -p[i] : p[i]); }
  d2::CQuat<double> I = d2::CQuat<double>::Identity(); vc_same<4>(I.p, e, "CQuat::Identity");
  d2::CQuat<double> O(p[3], p[0], p[1], p[2]); vc_same<4>(O.p, p, "CQuat(w,x,y,z) ordering");
  P.CopyTo(c); vc_same<4>(c, p, "CQuat::CopyTo");
}
VC(quat_rotate) {
  double q[4], v[3], a[3], b[3], w[3]; unitq(q, "q"); HAVOC(v); HAVOC(w);
  spec::qrot(b, q, v);
  d2::QuatVec(a, q, v); vc_same<3>(a, b, "QuatVec = q v q*");
  auto c = d2::QuatVec3(q, v); vc_same<3>(c.data(), b, "QuatVec3 = q v q*");
  d2::CQuat<double> Q(q); auto d = Q.RotateVector(v); vc_same<3>(d.data(), b, "RotateVector = q v q*");
  double back[3]; d2::QuatConjVec(back, q, a); vc_same<3>(back, v, "conjugate rotation undoes the rotation");
  double b2[3]; d2::QuatVec(b2, q, w);
  ENSURES_EQ_L("rotation preserves dot products", spec::dot3(a, b2), spec::dot3(v, w));
  double x1[3], x2[3], x3[3]; spec::cross(x1, v, w); d2::QuatVec(x2, q, x1); spec::cross(x3, a, b2); vc_same<3>(x2, x3, "rotation preserves orientation");
  d2::CQuat<double> S(q); S.SetSmallerRotation(); auto e = S.RotateVector(v); vc_same<3>(e.data(), b, "SetSmallerRotation keeps the rotation"); ENSURES_GE_L("SetSmallerRotation has w>=0", S.p[3], 0);
}
VC(quat_compose) {
  double p[4], q[4], r[4], v[3], a[3], b[3], c[3]; unitq(p, "p"); unitq(q, "q"); HAVOC(v);
  d2::QuatQuat(r, p, q); d2::QuatVec(a, q, v); d2::QuatVec(b, p, a); d2::QuatVec(c, r, v);
  vc_same<3>(b, c, "rotating by a product = rotating twice");
  double P[9], Q[9], R[9], E[9]; d2::Mat3_Quat(P, p); d2::Mat3_Quat(Q, q); d2::Mat3_Quat(R, r); spec::mm<3>(E, P, Q);
  vc_same<9>(R, E, "matrix of a product = product of matrices");
}
VC(quat_matrix) {
  double q[4], R[9], E[9]; unitq(q, "q");
  d2::Mat3_Quat(R, q); spec::qmat(E, q); vc_same<9>(R, E, "Mat3_Quat acts as q v q*");
  vc_orthonormal<3>(R, "orthogonal"); ENSURES_EQ_L("det = 1", spec::det3(R), 1);
  auto c = d2::CMat3<double>::Quat(q); vc_same<9>(c.p_, R, "CMat3::Quat agrees");
  d2::CMat3<double> s; s.SetRotMatrix_Quaternion(q); vc_same<9>(s.p_, R, "SetRotMatrix_Quaternion agrees");
}
VC(quat_from_matrix) {
  double q[4], R[9], p[4], S[9]; unitq(q, "q"); spec::qmat(R, q);
  d2::Quat_Mat3(p, R);
  for (int i = 0; i < 4; ++i) for (int j = 0; j <= i; ++j) ENSURES_EQ_L("Quat_Mat3 returns +-q", p[i]*p[j], q[i]*q[j]);
  d2::Mat3_Quat(S, p); vc_same<9>(S, R, "matrix -> quaternion -> matrix is the identity");
  auto g = d2::CMat3<double>(R).GetQuaternion(); vc_same<4>(g.data(), p, "GetQuaternion agrees");
}
VC(quat_axis_angle) {
  double a[3], q[4], v[3]; HAVOC(a); HAVOC(v);
  const double t2 = spec::dot3(a, a);
  d2::Quat_CartesianAngle(q, a);
  auto q2 = d2::Quat_CartesianAngle(d2::CVec3<double>(a)); vc_same<4>(q2.data(), q, "overload agrees");
  if (t2 >= 1e-10) {
    double t = std::sqrt(t2);
    ENSURES_EQ_L("unit", spec::dot<4>(q, q), 1);
    ENSURES_EQ_L("w = cos(|a|/2)", q[3], std::cos(t/2));
    for (int i = 0; i < 3; ++i) ENSURES_EQ_L("vector part = sin(|a|/2) a/|a|", q[i]*t, std::sin(t/2)*a[i]);
    double R[9], S[9]; d2::Mat3_Quat(R, q); d2::Mat3_RotMatFromAxisAngleVec(S, a); vc_same<9>(R, S, "same rotation as the axis-angle matrix");
    auto S2 = d2::Mat3_RotMatFromAxisAngleVec(a); vc_same<9>(S2.data(), S, "array overload of the axis-angle matrix agrees");
  } else {
    for (int i = 0; i < 3; ++i) ENSURES_EQ_L("small angle: vector part = a/2", q[i], a[i]/2);
    ENSURES_GE_L("small angle: norm within 1e-20 of 1", 1e-20, spec::dot<4>(q, q) - 1);
    ENSURES_GE_L("small angle: norm within 1e-20 of 1", spec::dot<4>(q, q) - 1, 0);
  }
}
VC(quat_bryant_euler) {
  double r[3], q[4], R[9], X[9], Y[9], Z[9], T[9], E[9]; HAVOC(r);
  d2::Quat_Bryant(q, r[0], r[1], r[2]); d2::Mat3_Quat(R, q);
  spec::rotaxis(X, 0, r[0]); spec::rotaxis(Y, 1, r[1]); spec::rotaxis(Z, 2, r[2]);
  spec::mm<3>(T, Y, X); spec::mm<3>(E, Z, T); vc_same<9>(R, E, "Bryant quaternion = Rz Ry Rx");
  ENSURES_EQ_L("unit", spec::dot<4>(q, q), 1);
  auto q2 = d2::Quat_Bryant(r[0], r[1], r[2]); vc_same<4>(q2.data(), q, "overload agrees");
  REQUIRES(r[0]*r[0] > 1e-19 && r[1]*r[1] > 1e-19 && r[2]*r[2] > 1e-19);
  d2::CMat3<double> m; m.SetRotMatrix_BryantAngle(r[0], r[1], r[2]); vc_same<9>(m.p_, E, "Bryant matrix = Rz Ry Rx");
}
VC(quat_euler_any_axes) {
  double r[3], q[4], R[9], A[9], T[9], E[9]; HAVOC(r);
  const int i0 = vc_choose(3), i1 = vc_choose(3), i2 = vc_choose(3);
  const int ax[3] = {i0, i1, i2};
  d2::Quaternion_EulerAngle(q, {r[0], r[1], r[2]}, {i0, i1, i2}); d2::Mat3_Quat(R, q);
  spec::rotaxis(E, ax[0], r[0]); for (int k = 1; k < 3; ++k) { spec::rotaxis(A, ax[k], r[k]); spec::mm<3>(T, E, A); for (int i = 0; i < 9; ++i) E[i] = T[i]; }
  vc_same<9>(R, E, "Euler quaternion = product of axis rotations in order");
}
VC(quat_slerp) {
  double p[4], q[4], t = vc_real("t"); unitq(p, "p"); unitq(q, "q");
  const double c = spec::dot<4>(p, q); REQUIRES_POS(1 - c*c, 1e-3);
  d2::CQuat<double> P(p), Q(q), S = d2::SphericalLinearInterp(P, Q, t);
  const double ph = std::acos(c);
  ENSURES_EQ_L("interpolated quaternion is a unit quaternion", spec::dot<4>(S.p, S.p), 1);
  ENSURES_EQ_L("angle from the start is t * total", spec::dot<4>(S.p, p), std::cos(ph*t));
  ENSURES_EQ_L("angle to the end is (1-t) * total", spec::dot<4>(S.p, q), std::cos(ph - ph*t));
}
VC(quat_slerp_ends) {
  double p[4], q[4]; unitq(p, "p"); unitq(q, "q");
  const double c = spec::dot<4>(p, q); REQUIRES_POS(1 - c*c, 1e-3);
  d2::CQuat<double> P(p), Q(q), S = d2::SphericalLinearInterp(P, Q, 0.), E = d2::SphericalLinearInterp(P, Q, 1.);
  vc_same<4>(S.p, p, "t=0 is the start"); vc_same<4>(E.p, q, "t=1 is the end");
}
