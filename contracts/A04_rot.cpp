// rotation-matrix constructors and their inverses
#include "vc.h"
#include "spec.h"
#define DFM2_HEADER_ONLY
#include "delfem2/quat.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
namespace d2 = delfem2;
static void isrot(const double *R) { vc_orthonormal<3>(R, "rotation matrix is orthogonal"); ENSURES_EQ_L("rotation matrix has determinant 1", spec::det3(R), 1); }
static void axisangle_spec(double *R, const double *v) { // exp([v]x), |v|>0
  const double t = std::sqrt(spec::dot3(v, v)), c = std::cos(t), s = std::sin(t);
  double n[3] = {v[0]/t, v[1]/t, v[2]/t}, S[9] = {0,-n[2],n[1],n[2],0,-n[0],-n[1],n[0],0};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i*3+j] = c*spec::kron(i,j) + s*S[i*3+j] + (1-c)*n[i]*n[j]; }

VC(rot_axis_angle) {
  double v[3], R[9], E[9], w[3]; HAVOC(v);
  const double t2 = spec::dot3(v, v);
  d2::Mat3_RotMatFromAxisAngleVec(R, v); auto R2 = d2::Mat3_RotMatFromAxisAngleVec(v); vc_same<9>(R2.data(), R, "overloads agree");
  spec::mv<3>(w, R, v); vc_same<3>(w, v, "the axis is fixed");
  if (t2 >= 1e-20) { axisangle_spec(E, v); vc_same<9>(R, E, "R = exp([v]x)"); isrot(R); }
  else {
    double S[9] = {0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0};
    for (int i = 0; i < 9; ++i) ENSURES_EQ_L("tiny rotation: I + [v]x", R[i], (i%4==0) + S[i]);
  }
}
VC(rot_vector) {
  double v[3], x[3], E[9], e[3], k[3]; HAVOC(v); HAVOC(x); REQUIRES_POS(spec::dot3(v, v), 1e-4);
  spec::cross(k, v, x); { const double l = std::sqrt(spec::dot3(v, v)); for (int i = 0; i < 3; ++i) k[i] /= l; } REQUIRES(spec::dot3(k, k) > 1e-50); // exactly parallel: next contract
  d2::CVec3<double> V(v), X(x); auto y = d2::RotateVec3WithAxisAngleVector(X, V);
  axisangle_spec(E, v); spec::mv<3>(e, E, x); vc_same<3>(y.p, e, "RotateVec3WithAxisAngleVector = exp([v]x) x");
}
VC(rot_vector_parallel) {
  double v[3], s = vc_real("s"); HAVOC(v); REQUIRES_POS(spec::dot3(v, v), 1e-4); double x[3] = {s*v[0], s*v[1], s*v[2]};
  d2::CVec3<double> V(v), X(x); auto y = d2::RotateVec3WithAxisAngleVector(X, V); vc_same<3>(y.p, x, "a vector along the axis is unchanged");
}
VC(rot_rodrigues) {
  double v[3], P[9], Q[9], L[9]; HAVOC(v);
  auto R = d2::Mat3_RotMatFromRodriguesVector(v); isrot(R.data());
  double S[9] = {0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0};
  for (int i = 0; i < 9; ++i) { P[i] = (i%4==0) + S[i]/2; Q[i] = (i%4==0) - S[i]/2; }
  spec::mm<3>(L, Q, R.data()); vc_same<9>(L, P, "Cayley transform of [v/2]x");
}
VC(rot_crv) {
  // conformal rotation vector: crv = 4 tan(angle/4) axis
  double n0[3], n[3], R[9], E[9], back[3]; double h = vc_real("quarterangle"); HAVOC(n0); REQUIRES_NONZERO(spec::dot3(n0, n0)); spec::unit3(n, n0);
  REQUIRES(h > 1e-6 && h < 1.57);
  const double tn = std::sin(h)/std::cos(h); double c[3] = {4*tn*n[0], 4*tn*n[1], 4*tn*n[2]};
  auto r = d2::Mat3_RotMatFromConformalRotationVector(d2::CVec3<double>(c)); for (int i = 0; i < 9; ++i) R[i] = r[i];
  isrot(R);
  double S[9] = {0,-n[2],n[1],n[2],0,-n[0],-n[1],n[0],0}; const double ct = std::cos(4*h), st = std::sin(4*h);
  for (int i = 0; i < 9; ++i) E[i] = ct*(i%4==0) + st*S[i] + (1-ct)*n[i/3]*n[i%3];
  vc_same<9>(R, E, "CRV 4 tan(t/4) n rotates by t about n");
  (void)back;
}
VC(rot_crv_roundtrip) {
  double c[3], R[9], b[3], R2[9]; HAVOC(c);
  auto r = d2::Mat3_RotMatFromConformalRotationVector(d2::CVec3<double>(c)); for (int i = 0; i < 9; ++i) R[i] = r[i];
  d2::AxisAngleVectorCRV_Mat3(b, R);
  REQUIRES_NONZERO(spec::dot3(b, b));
  auto r2 = d2::Mat3_RotMatFromConformalRotationVector(d2::CVec3<double>(b)); for (int i = 0; i < 9; ++i) R2[i] = r2[i];
  vc_same<9>(R2, R, "matrix -> CRV -> matrix is the identity");
}
VC(rot_to_axis_angle) {
  // v -> R(v) -> vector is the identity for angles in (0.1, 3.0)
  double n0[3], n[3], v[3], R[9], b[3]; double t = vc_real("angle"); HAVOC(n0); REQUIRES_NONZERO(spec::dot3(n0, n0)); spec::unit3(n, n0);
  REQUIRES(t > 0.01 && t < 3.141); const double c = std::cos(t), s = std::sin(t); REQUIRES_POS(s, 1e-2); REQUIRES(1-c > 2e-5); REQUIRES_POS(1+c, 1e-3);
  double S[9] = {0,-n[2],n[1],n[2],0,-n[0],-n[1],n[0],0};
  for (int i = 0; i < 9; ++i) R[i] = c*(i%4==0) + s*S[i] + (1-c)*n[i/3]*n[i%3];
  const double th = std::acos((R[0]+R[4]+R[8]-1)/2), k = th/(2*std::sin(th)); // = t / (2 sin t)
  for (int i = 0; i < 3; ++i) v[i] = 2*s*k*n[i];
  d2::AxisAngleVectorCartesian_Mat3(b, R); vc_same<3>(b, v, "AxisAngleVectorCartesian_Mat3 = acos((tr-1)/2) n");
  auto a = d2::Vec3_AxisAngleVecFromMat3<d2::CMat3<double>,double>(d2::CMat3<double>(R)); vc_same<3>(a.data(), v, "Vec3_AxisAngleVecFromMat3 = acos((tr-1)/2) n");
  auto w = d2::Vec3_SpinVectorFromMat3<d2::CMat3<double>,double>(d2::CMat3<double>(R)); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("spin vector of R = sin(t) n", w[i], s*n[i]);
}
VC(rot_small_to_axis_angle) {
  double v[3], R[9], b[3]; HAVOC(v);
  double S[9] = {0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0}; for (int i = 0; i < 9; ++i) R[i] = (i%4==0) + S[i];
  d2::AxisAngleVectorCartesian_Mat3(b, R); vc_same<3>(b, v, "I + [v]x -> v");
  auto a = d2::Vec3_AxisAngleVecFromMat3<d2::CMat3<double>,double>(d2::CMat3<double>(R)); vc_same<3>(a.data(), v, "I + [v]x -> v");
}
VC(rot_spin_vector) {
  double M[9]; HAVOC(M);
  auto w = d2::Vec3_SpinVectorFromMat3<d2::CMat3<double>,double>(d2::CMat3<double>(M));
  double S[9]; d2::Mat3_Spin(S, w.data());
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ENSURES_EQ_L("[spin(M)]x is the skew part of M", S[i*3+j], (M[i*3+j]-M[j*3+i])/2);
}
VC(rot_minimum) {
  double V[3], v[3]; HAVOC(V); HAVOC(v);
  const double VV = spec::dot3(V, V), vv = spec::dot3(v, v), Vv = spec::dot3(V, v);
  REQUIRES_NONZERO(VV); REQUIRES_NONZERO(vv);
  const double lv = std::sqrt(vv), lV = std::sqrt(VV);
  double x[3]; { double P[3], p[3]; for (int i = 0; i < 3; ++i) { P[i] = V[i]/lV; p[i] = v[i]/lv; } spec::cross(x, P, p); }
  REQUIRES(spec::dot3(x, x) > 1.1e-8);
  auto R = d2::Mat3_MinimumRotation(d2::CVec3<double>(V), d2::CVec3<double>(v));
  isrot(R.data()); double w[3]; spec::mv<3>(w, R.data(), V); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("takes the first direction to the second", w[i]*lv, v[i]*lV);
  double c[3]; spec::cross(c, V, v); spec::mv<3>(w, R.data(), c); vc_same<3>(w, c, "the common normal is the axis");
  ENSURES_EQ_L("rotation angle is the angle between the directions", (R[0]+R[4]+R[8]-1)*lV*lv, 2*Vv);
}
VC(rot_minimum_parallel) {
  double V[3]; HAVOC(V); REQUIRES_NONZERO(spec::dot3(V, V));
  d2::CVec3<double> a(V);
  auto R = d2::Mat3_MinimumRotation(a, a); for (int i = 0; i < 9; ++i) ENSURES_EQ_L("same direction -> identity", R[i], (i%4==0));
}
VC(rot_minimum_opposite) {
  double V[3]; HAVOC(V); REQUIRES_POS(spec::dot3(V, V), 0.01);
  REQUIRES((V[0]*V[0] + V[2]*V[2])/spec::dot3(V, V) > 1e-19); // away from the frame fallback, see rot_frame_z; the axis itself: rot_minimum_opposite_axis
  d2::CVec3<double> a(V), b(-V[0], -V[1], -V[2]);
  auto R = d2::Mat3_MinimumRotation(a, b); isrot(R.data());
  double w[3]; spec::mv<3>(w, R.data(), V); vc_same<3>(w, b.p, "opposite directions: V -> -V");
}
VC(rot_minimum_opposite_axis) {
  const double s = vc_choose(2) ? 2 : -3; d2::CVec3<double> a(0, s, 0), b(0, -s, 0);
  auto R = d2::Mat3_MinimumRotation(a, b); isrot(R.data());
  double w[3]; spec::mv<3>(w, R.data(), a.p); vc_same<3>(w, b.p, "opposite directions: V -> -V");
}
static void euler(int i0, int i1, int i2) {
  double r[3], q[4], R[9], ea[3], q2[4], R2[9]; HAVOC(r);
  d2::Quaternion_EulerAngle(q, {r[0], r[1], r[2]}, {i0, i1, i2}); spec::qmat(R, q);
  const double cy = std::cos(r[1]); REQUIRES_POS(cy*cy, 1e-4);
  { const double y = std::cos(std::asin(R[i0*3+i2])); REQUIRES(y > 1e-3 || y < -1e-3); }
  d2::EulerAngle_Mat3(ea, R, {i0, i1, i2});
  d2::Quaternion_EulerAngle(q2, {ea[0], ea[1], ea[2]}, {i0, i1, i2}); spec::qmat(R2, q2);
  vc_same<9>(R2, R, "Euler angles read back reproduce the rotation");
}
VC(rot_euler_210) { euler(2, 1, 0); }
VC(rot_euler_201) { euler(2, 0, 1); }
VC(rot_frame_z) {
  double n0[3], n[3]; HAVOC(n0); REQUIRES_POS(spec::dot3(n0, n0), 0.01); spec::unit3(n, n0);
  REQUIRES(n[0]*n[0] + n[2]*n[2] > 1e-19); // the exact y axis: next contract; between the two the frame is orthonormal to 1e-20 only
  d2::CVec3<double> N(n), x, y; d2::FrameFromVectorZ(x, y, N);
  double F[9]; for (int i = 0; i < 3; ++i) { F[i*3] = x.p[i]; F[i*3+1] = y.p[i]; F[i*3+2] = n[i]; }
  isrot(F);
}
VC(rot_frame_z_axis) {
  const double s = vc_choose(2) ? 1 : -1; d2::CVec3<double> N(0, s, 0), x, y; d2::FrameFromVectorZ(x, y, N);
  double F[9]; for (int i = 0; i < 3; ++i) { F[i*3] = x.p[i]; F[i*3+1] = y.p[i]; F[i*3+2] = N.p[i]; }
  isrot(F);
}
VC(rot_irot_crosscross) {
  double v[3], w[3], x[3], e[3], t[3]; HAVOC(v); HAVOC(w);
  d2::CVec3<double> V(v);
  auto C = d2::Mat3_CrossCross(V); spec::mv<3>(x, C.data(), w); spec::cross(t, v, w); spec::cross(e, v, t); vc_same<3>(x, e, "CrossCross w = v x (v x w)");
  auto I = d2::Mat3_IrotPoint<d2::CVec3<double>,double>(V); spec::mv<3>(x, I.data(), w); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("inertia of a unit mass point: w -> v x (w x v)", x[i], -e[i]);
}
