// homogeneous transforms and cameras: mat4, cam_projection, cam_modelview, msh_affine_transformation
#include "vc.h"
#include "spec.h"
#define DFM2_HEADER_ONLY
#include "delfem2/mat4.h"
#include "delfem2/mat3.h"
#include "delfem2/cam_projection.h"
#include "delfem2/cam_modelview.h"
namespace d2 = delfem2;
// apply a homogeneous row-major matrix to a point, with division
static void hom(double *y, const double *M, const double *x) {
  double w = M[12]*x[0]+M[13]*x[1]+M[14]*x[2]+M[15];
  for (int i = 0; i < 3; ++i) y[i] = (M[i*4]*x[0]+M[i*4+1]*x[1]+M[i*4+2]*x[2]+M[i*4+3])/w; }
static void bottom_row(const double *M, const char *l) { for (int j = 0; j < 4; ++j) vc_eq_(M[12+j], j==3, l); }

VC(mat4_products) {
  double A[16], B[16], x[4], y[4], r[16], e[16]; HAVOC(A); HAVOC(B); HAVOC(x);
  d2::MatMat4(r, A, B); spec::mm<4>(e, A, B); vc_same<16>(r, e, "MatMat4 = A B");
  d2::CMat4<double> a(A), b(B);
  auto c = a*b; vc_same<16>(c.mat, e, "CMat4 operator* = A B");
  auto p = a+b, m = a-b;
  for (int i = 0; i < 16; ++i) { ENSURES_EQ_L("CMat4 +", p.mat[i], A[i]+B[i]); ENSURES_EQ_L("CMat4 -", m.mat[i], A[i]-B[i]); }
  d2::MatVec4(y, A, x); spec::mv<4>(e, A, x); vc_same<4>(y, e, "MatVec4 = A x");
  d2::VecMat4(y, x, A); spec::mtv<4>(e, A, x); vc_same<4>(y, e, "VecMat4 = x^T A");
  d2::Transpose_Mat4(r, A); auto t = a.transpose();
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { ENSURES_EQ_L("Transpose_Mat4", r[i*4+j], A[j*4+i]); ENSURES_EQ_L("CMat4::transpose", t(i,j), A[j*4+i]); }
  d2::Copy_Mat4(r, A); vc_same<16>(r, A, "Copy_Mat4");
}
VC(mat4_points_and_directions) {
  double A[16], x[3], y[3], e[3]; HAVOC(A); HAVOC(x);
  const double w = A[12]*x[0]+A[13]*x[1]+A[14]*x[2]+A[15], wt = A[3]*x[0]+A[7]*x[1]+A[11]*x[2]+A[15];
  REQUIRES_NONZERO(w); REQUIRES_NONZERO(wt);
  hom(e, A, x);
  auto h = d2::Vec3_Mat4Vec3_Homography(A, x); vc_same<3>(h.data(), e, "homography = A(x,1)/w");
  auto h2 = d2::Vec2_Mat4Vec3_Homography(A, x); vc_same<2>(h2.data(), e, "2D homography is its first two components");
  auto h3 = d2::CMat4<double>(A).MultVec3_Homography(x); vc_same<3>(h3.data(), e, "CMat4::MultVec3_Homography");
  double At[16]; for (int i = 0; i < 16; ++i) At[(i%4)*4+i/4] = A[i];
  d2::Vec3_Vec3Mat4_Homography(y, x, A); hom(e, At, x); vc_same<3>(y, e, "row-vector homography = transposed matrix");
  d2::Vec3_Mat4Vec3_Affine(y, A, x); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("affine image of a point", y[i], A[i*4]*x[0]+A[i*4+1]*x[1]+A[i*4+2]*x[2]+A[i*4+3]);
  d2::Mat4Vec3(y, A, x); auto dv = d2::Mat4Vec3(A, x); auto dm = d2::CMat4<double>(A).MultVec3(x);
  for (int i = 0; i < 3; ++i) { double s = A[i*4]*x[0]+A[i*4+1]*x[1]+A[i*4+2]*x[2];
    ENSURES_EQ_L("direction ignores translation", y[i], s); ENSURES_EQ_L("direction ignores translation", dv[i], s); ENSURES_EQ_L("direction ignores translation", dm[i], s); }
  d2::Vec3Mat4(y, x, A); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("row direction", y[i], A[i]*x[0]+A[4+i]*x[1]+A[8+i]*x[2]);
}
VC(mat4_composition) {
  // transforming by a product = transforming twice
  double A[16], B[16], C[16], x[3]; HAVOC(A); HAVOC(B); HAVOC(x);
  d2::MatMat4(C, A, B);
  const double w = B[12]*x[0]+B[13]*x[1]+B[14]*x[2]+B[15]; REQUIRES_NONZERO(w);
  const double w2 = C[12]*x[0]+C[13]*x[1]+C[14]*x[2]+C[15]; REQUIRES_NONZERO(w2);
  auto p = d2::Vec3_Mat4Vec3_Homography(B, x);
  auto q = d2::Vec3_Mat4Vec3_Homography(A, p.data());
  auto r = d2::Vec3_Mat4Vec3_Homography(C, x);
  vc_same<3>(q.data(), r.data(), "(A B) x = A (B x)");
}
VC(mat4_builders) {
  double t[3], s = vc_real("s"), x[3], y[3], e[3], M[16], R[9], q0[4], q[4]; HAVOC(t); HAVOC(x); HAVOC(R); HAVOC(q0);
  REQUIRES_NONZERO(spec::dot<4>(q0, q0)); spec::unit4(q, q0);
  d2::Mat4_AffineTranslation(M, t[0], t[1], t[2]); hom(y, M, x); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("translation adds t", y[i], x[i]+t[i]);
  auto T2 = d2::Mat4_AffineTranslation(t[0], t[1], t[2]); vc_same<16>(T2.data(), M, "translation overload agrees");
  auto T3 = d2::CMat4<double>::Translation(t); vc_same<16>(T3.mat, M, "CMat4::Translation agrees");
  d2::CMat4<double> T4; T4.SetAffineTranslate(t[0], t[1], t[2]); vc_same<16>(T4.mat, M, "SetAffineTranslate agrees");
  auto tc = T3.GetTranslationComponent(); vc_same<3>(tc.data(), t, "GetTranslationComponent inverts Translation");
  d2::Mat4_AffineScale(M, s); hom(y, M, x); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("scale multiplies", y[i], x[i]*s);
  auto S2 = d2::CMat4<double>::AffineScale(s); vc_same<16>(S2.mat, M, "CMat4::AffineScale agrees");
  auto S3 = d2::CMat4<double>::ScaleXYZ(t[0], t[1], t[2]); hom(y, S3.mat, x); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("ScaleXYZ multiplies per axis", y[i], x[i]*t[i]);
  S3.SetScale(s, t[1], t[2]); hom(y, S3.mat, x); ENSURES_EQ_L("SetScale multiplies per axis", y[0], x[0]*s); ENSURES_EQ_L("SetScale multiplies per axis", y[2], x[2]*t[2]);
  d2::Mat4_Identity(M); hom(y, M, x); vc_same<3>(y, x, "identity");
  auto I2 = d2::CMat4<double>::Identity(); vc_same<16>(I2.mat, M, "CMat4::Identity");
  S3.SetIdentity(); vc_same<16>(S3.mat, M, "SetIdentity");
  d2::Mat4_Mat3(M, R); hom(y, M, x); spec::mv<3>(e, R, x); vc_same<3>(y, e, "Mat4_Mat3 embeds the matrix"); bottom_row(M, "Mat4_Mat3 is affine");
  auto M3 = d2::CMat4<double>::Mat3(R); vc_same<16>(M3.mat, M, "CMat4::Mat3 agrees");
  auto g = M3.GetMat3(); vc_same<9>(g.data(), R, "GetMat3 inverts Mat3");
  auto AX = d2::CMat4<double>::AffineAxisTransform({R[0],R[3],R[6]},{R[1],R[4],R[7]},{R[2],R[5],R[8]}); vc_same<16>(AX.mat, M, "AffineAxisTransform puts axes in columns");
  d2::CMat3<double> m3; m3.SetMat4(M); vc_same<9>(m3.p_, R, "CMat3::SetMat4 takes the linear block");
  double A[16]; d2::Mat4_AffineTrans_RotTransl(A, R, t);  // transposed (row-vector) convention
  double At[16]; for (int i = 0; i < 16; ++i) At[(i%4)*4+i/4] = A[i];
  hom(y, At, x); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("RotTransl: x^T M = (R x + t)^T", y[i], e[i]+t[i]);
  m3.AffineMatrixTrans(A); vc_same<16>(A, [&]{ static double B[16]; for (int i = 0; i < 16; ++i) B[(i%4)*4+i/4] = M[i]; return (const double*)B; }(), "AffineMatrixTrans is the transposed embedding");
  double B0[16]; HAVOC(B0); for (int i = 0; i < 16; ++i) A[i] = B0[i];
  d2::Translate_Mat4Affine(A, t);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ENSURES_EQ_L("Translate_Mat4Affine shifts only the translation", A[i*4+j], B0[i*4+j] + ((j==3&&i<3)?t[i]:0));
  d2::Mat4_ScaleRotTrans(M, s, q, t); hom(y, M, x); spec::qrot(e, q, x);
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("ScaleRotTrans: x -> s R x + t", y[i], s*e[i]+t[i]);
  bottom_row(M, "ScaleRotTrans is affine");
  double K[16], w[3]; auto SK = d2::CMat4<double>::Skew(t); for (int i = 0; i < 16; ++i) K[i] = SK.mat[i];
  hom(w, K, x); spec::cross(e, t, x); vc_same<3>(w, e, "CMat4::Skew is the cross product");
}
VC(mat4_rotation_rodriguez) {
  // A v-parametrised rotation: R = (I - [v/2]x)^-1 (I + [v/2]x), the Cayley transform
  double v[3], B[16], A[16]; HAVOC(v); HAVOC(B);
  auto M = d2::Mat4_AffineRotationRodriguez(v[0], v[1], v[2]);
  bottom_row(M.data(), "affine"); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("no translation", M[i*4+3], 0);
  double R[9]; for (int i = 0; i < 9; ++i) R[i] = M[(i/3)*4+i%3];
  vc_orthonormal<3>(R, "R orthogonal"); ENSURES_EQ_L("det R = 1", spec::det3(R), 1);
  double S[9] = {0,-v[2],v[1],v[2],0,-v[0],-v[1],v[0],0}, P[9], Q[9], L[9];
  for (int i = 0; i < 9; ++i) { P[i] = (i%4==0) + S[i]/2; Q[i] = (i%4==0) - S[i]/2; }
  spec::mm<3>(L, Q, R); vc_same<9>(L, P, "Cayley transform of [v/2]x");
  for (int i = 0; i < 16; ++i) A[i] = B[i];
  d2::Rotate_Mat4AffineRodriguez(A, v); double E[16]; spec::mm<4>(E, M.data(), B); vc_same<16>(A, E, "Rotate := R A");
}
VC(mat4_rotation_cartesian) {
  double v[3], M[16]; HAVOC(v);
  const double t2 = spec::dot3(v, v);
  d2::Mat4_AffineRotationCartesian(M, v);
  bottom_row(M, "affine"); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("no translation", M[i*4+3], 0);
  double R[9]; for (int i = 0; i < 9; ++i) R[i] = M[(i/3)*4+i%3];
  double w[3]; spec::mv<3>(w, R, v);
  vc_same<3>(w, v, "the axis is fixed");
  if (t2 >= 1e-20) {
    double t = std::sqrt(t2);
    vc_orthonormal<3>(R, "R orthogonal"); ENSURES_EQ_L("det R = 1", spec::det3(R), 1);
    ENSURES_EQ_L("trace = 1 + 2 cos|v|", R[0]+R[4]+R[8], 1+2*std::cos(t));
    for (int k = 0; k < 3; ++k) { int i = (k+1)%3, j = (k+2)%3; ENSURES_EQ_L("skew part = sin|v| v/|v|", (R[j*3+i]-R[i*3+j])*t, 2*std::sin(t)*v[k]); }
  } else {
    for (int k = 0; k < 3; ++k) { int i = (k+1)%3, j = (k+2)%3; ENSURES_EQ_L("tiny rotation: skew part = v", (R[j*3+i]-R[i*3+j])/2, v[k]); ENSURES_EQ_L("tiny rotation: symmetric part = I", R[j*3+i]+R[i*3+j], 0); ENSURES_EQ_L("tiny rotation: symmetric part = I", R[k*4], 1); }
  }
}
VC(mat4_quaternion) {
  double q0[4], q[4], M[16], N[16], x[3], e[3], y[3]; HAVOC(q0); HAVOC(x);
  REQUIRES_NONZERO(spec::dot<4>(q0, q0)); spec::unit4(q, q0);
  d2::Mat4_AffineQuaternion(M, q); hom(y, M, x); spec::qrot(e, q, x); vc_same<3>(y, e, "matrix acts as q x q*"); bottom_row(M, "affine");
  auto Q = d2::CMat4<double>::Quat(q); vc_same<16>(Q.mat, M, "CMat4::Quat agrees");
  d2::Mat4_AffineQuaternionConjugate(N, q);
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) ENSURES_EQ_L("conjugate quaternion gives the transpose", N[i*4+j], M[j*4+i]);
}
VC(mat4_inverse) {
  double m[16], b[16], s[16]; HAVOC(m);
  REQUIRES_NONZERO(spec::det4(m));
  d2::Inverse_Mat4(b, m);
  spec::mm<4>(s, m, b); for (int i = 0; i < 16; ++i) ENSURES_EQ_L("M M^-1 = I", s[i], (i%5==0));
}
VC(mat4_inverse_class) {
  double m[16]; HAVOC(m);
  REQUIRES_NONZERO(spec::det4(m)); REQUIRES_POS(m[0], 0.001); REQUIRES_POS(m[0]*m[5]-m[1]*m[4], 0.001);
  REQUIRES_POS(m[0]*m[5]*m[10] + m[1]*m[6]*m[8] + m[2]*m[4]*m[9] - m[2]*m[5]*m[8] - m[1]*m[4]*m[10] - m[0]*m[6]*m[9], 0.001);
  REQUIRES_POS(spec::det4(m), 0.001);
  double b[16], s[16]; d2::Inverse_Mat4(b, m);
  auto c = d2::CMat4<double>(m).Inverse(); vc_same<16>(c.mat, b, "CMat4::Inverse agrees with Inverse_Mat4");
  auto a = d2::Inverse_Mat4(m); vc_same<16>(a.data(), b, "array overload agrees");
  spec::mm<4>(s, b, m); for (int i = 0; i < 16; ++i) ENSURES_EQ_L("M^-1 M = I", s[i], (i%5==0));
}
VC(projection_ortho) {
  double l = vc_real("xmin"), r = vc_real("xmax"), b = vc_real("ymin"), t = vc_real("ymax"), n = vc_real("zmin"), f = vc_real("zmax"), M[16], y[3];
  REQUIRES_NONZERO(r-l); REQUIRES_NONZERO(t-b); REQUIRES_NONZERO(f-n);
  d2::Mat4_AffineProjectionOrtho(M, l, r, b, t, n, f);
  for (int c = 0; c < 8; ++c) {
    double x[3] = {(c&1)?r:l, (c&2)?t:b, (c&4)?f:n}; hom(y, M, x);
    ENSURES_EQ_L("box corner -> cube corner", y[0], (c&1)?1:-1); ENSURES_EQ_L("box corner -> cube corner", y[1], (c&2)?1:-1); ENSURES_EQ_L("box corner -> cube corner", y[2], (c&4)?1:-1);
  }
  bottom_row(M, "orthographic projection is affine");
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) ENSURES_EQ_L("axis aligned", M[i*4+j], 0);
  auto c = d2::CMat4<double>::AffineOrthogonalProjection(l, r, b, t, n, f); vc_same<16>(c.mat, M, "CMat4::AffineOrthogonalProjection agrees");
}
VC(projection_frustum) {
  // view along -Z; |z| tan(fovy/2) is the half height of the view at depth z
  double h = vc_real("halffov"), asp = vc_real("asp"), n = vc_real("zmin"), f = vc_real("zmax"), z = vc_real("z"), sx = vc_real("sx"), sy = vc_real("sy"), M[16], y[3];
  REQUIRES_NONZERO(n); REQUIRES_NONZERO(f); REQUIRES_NONZERO(f-n); REQUIRES_NONZERO(z); REQUIRES_NONZERO(asp);
  REQUIRES(h > 1e-6 && h < 1.5707); const double th = std::sin(h)/std::cos(h); 
  d2::Mat4_AffineProjectionFrustum(M, 2*h, asp, n, f);
  { double x[3] = {sx*asp*th*(-z), sy*th*(-z), z}; hom(y, M, x);
    ENSURES_EQ_L("field of view edge -> x = +-1", y[0], sx); ENSURES_EQ_L("field of view edge -> y = +-1", y[1], sy); }
  { double x[3] = {sx, sy, n}; hom(y, M, x); ENSURES_EQ_L("plane z=zmin -> -1", y[2], -1); }
  { double x[3] = {sx, sy, f}; hom(y, M, x); ENSURES_EQ_L("plane z=zmax -> +1", y[2], 1); }
}
VC(look_at) {
  double eye[3], c[3], up[3], M[16], f[3], s[3], y[3]; HAVOC(eye); HAVOC(c); HAVOC(up);
  spec::sub3(f, c, eye); REQUIRES_NONZERO(spec::dot3(f, f)); spec::cross(s, f, up); REQUIRES_NONZERO(spec::dot3(s, s));
  d2::Mat4_AffineLookAt(M, eye[0], eye[1], eye[2], c[0], c[1], c[2], up[0], up[1], up[2]);
  double R[9]; for (int i = 0; i < 9; ++i) R[i] = M[(i/3)*4+i%3];
  vc_orthonormal<3>(R, "view rotation orthogonal"); ENSURES_EQ_L("view rotation proper", spec::det3(R), 1); bottom_row(M, "affine");
  hom(y, M, eye); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("eye -> origin", y[i], 0);
  hom(y, M, c); ENSURES_EQ_L("target on -Z axis", y[0], 0); ENSURES_EQ_L("target on -Z axis", y[1], 0); ENSURES_EQ_L("target at its distance in front", y[2], -std::sqrt(spec::dot3(f, f)));
  double u[3]; spec::mv<3>(u, R, up); ENSURES_EQ_L("up vector has no sideways component", u[0], 0); ENSURES_GE_L("up vector points up", u[1], 0);
}
VC(camera_look_origin) {
  vc_float_exact();
  float asp = vc_realf("asp"), vh = vc_realf("view_height"), fovy = vc_realf("fovy");
  bool pers = vc_choose(2);
  REQUIRES(asp > 0.001f && asp < 1000.f && vh > 1e-3f && vh < 1e4f && fovy > 0.1f && fovy < 179.f);
  d2::Projection_LookOriginFromZplus P(vh, pers, fovy);
  auto Mf = P.GetMatrix(asp);
  double M[16], y[3]; for (int i = 0; i < 16; ++i) M[i] = Mf[i];
  // the rectangle [-vh*asp,vh*asp]x[-vh,vh] in the plane z=0 fills the window, in both modes
  for (int c = 0; c < 4; ++c) { double x[3] = {((c&1)?1:-1)*(double)vh*asp, ((c&2)?1:-1)*(double)vh, 0}; hom(y, M, x);
    ENSURES_EQ_L("origin-plane window corner -> +-1", y[0], (c&1)?1:-1); ENSURES_EQ_L("origin-plane window corner -> +-1", y[1], (c&2)?1:-1); }
}
VC(camera_trackball) {
  vc_float_exact();
  float dx = vc_realf("dx"), dy = vc_realf("dy");
  d2::ModelView_Trackball mv; float q0[4], a[3]; vc_realsf(q0, 4, "q0"); vc_realsf(a, 3, "anchor");
  float n = q0[0]*q0[0]+q0[1]*q0[1]+q0[2]*q0[2]+q0[3]*q0[3]; REQUIRES_NONZERO(n); n = std::sqrt(n);
  for (int i = 0; i < 4; ++i) mv.quaternion[i] = q0[i]/n; for (int i = 0; i < 3; ++i) mv.anchor[i] = a[i];
  REQUIRES_NONZERO(dx*dx+dy*dy);
  mv.Rot_Camera(dx, dy);
  double s = 0; for (int i = 0; i < 4; ++i) s += (double)mv.quaternion[i]*mv.quaternion[i];
  ENSURES_EQ_L("camera quaternion stays a unit quaternion", s, 1);
  auto Mf = mv.GetMatrix(); double M[16], R[9], y[3], x[3] = {a[0], a[1], a[2]}; for (int i = 0; i < 16; ++i) M[i] = Mf[i]; for (int i = 0; i < 9; ++i) R[i] = M[(i/3)*4+i%3];
  vc_orthonormal<3>(R, "model view is rigid"); bottom_row(M, "affine");
  hom(y, M, x); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("anchor -> origin", y[i], 0);
}
VC(camera_ytop_ztop) {
  vc_float_exact();
  float th = vc_realf("theta"), psi = vc_realf("psi");
  REQUIRES(psi > -1.57f && psi < 1.57f);
  for (int k = 0; k < 2; ++k) {
    std::array<float,16> Mf; double eye[3]; const double c = std::cos((double)psi), s = std::sin((double)psi);
    REQUIRES_POS(c, 0.001);
    if (k == 0) { d2::ModelView_Ytop m(th, psi); Mf = m.GetMatrix(); eye[0] = std::sin((double)th)*c; eye[1] = s; eye[2] = std::cos((double)th)*c; }
    else { d2::ModelView_Ztop m; m.theta = th; m.psi = psi; Mf = m.GetMatrix(); eye[0] = std::sin((double)th)*c; eye[1] = std::cos((double)th)*c; eye[2] = s; }
    double M[16], R[9], y[3], o[3] = {0,0,0}; for (int i = 0; i < 16; ++i) M[i] = Mf[i]; for (int i = 0; i < 9; ++i) R[i] = M[(i/3)*4+i%3];
    vc_orthonormal<3>(R, "view is rigid");
    hom(y, M, eye); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("spherical camera position -> origin", y[i], 0);
    hom(y, M, o); ENSURES_EQ_L("world origin in front at distance 1", y[2], -1); ENSURES_EQ_L("world origin centred", y[0], 0); ENSURES_EQ_L("world origin centred", y[1], 0);
  }
}
VC(ray_from_screen) {
  // the ray returned for a pixel passes through the preimages of the pixel on the near and far plane
  double I[16]; HAVOC(I);
  const int iw = 3, ih = 5; const unsigned W = 17, H = 11;
  const double sx = -1+(2.0/W)*(iw+0.5), sy = -1+(2.0/H)*(ih+0.5);
  double p[3] = {sx, sy, 1}, q[3] = {sx, sy, -1}, a[3], b[3];
  REQUIRES_NONZERO(I[12]*p[0]+I[13]*p[1]+I[14]*p[2]+I[15]); REQUIRES_NONZERO(I[12]*q[0]+I[13]*q[1]+I[14]*q[2]+I[15]);
  hom(a, I, p); hom(b, I, q); double d[3]; spec::sub3(d, b, a); REQUIRES_NONZERO(spec::dot3(d, d));
  auto r = d2::RayFromInverseMvpMatrix<double>(I, iw, ih, W, H);
  vc_same<3>(r.first.data(), a, "ray starts at the preimage of (x,y,+1)");
  const double L = std::sqrt(spec::dot3(d, d)); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("unit direction towards the preimage of (x,y,-1)", r.second[i], d[i]/L);
}
VC(mat4_class_forms) {
  double A[16], v[3], q[4]; HAVOC(A); HAVOC(v); HAVOC(q); d2::CMat4<double> a(A); const double w = A[12]*v[0]+A[13]*v[1]+A[14]*v[2]+A[15]; REQUIRES_NONZERO(w);
  auto r = a.Vec2_MultVec3_Homography(v); for (int i = 0; i < 2; ++i) ENSURES_EQ_L("plane coordinates of the projected point", r[i], (A[4*i]*v[0]+A[4*i+1]*v[1]+A[4*i+2]*v[2]+A[4*i+3])/w);
  auto s = a.MultVec3_Homography(v); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("projected point", s[i], (A[4*i]*v[0]+A[4*i+1]*v[1]+A[4*i+2]*v[2]+A[4*i+3])/w);
  auto t = a.GetTranslationComponent(); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("translation", t[i], A[4*i+3]);
  a.SetQuaternion(q); double Q[16]; d2::Mat4_AffineQuaternion(Q, q); vc_same<16>(a.mat, Q, "SetQuaternion");
}
