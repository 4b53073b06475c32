// 3x3 / 2x2 matrix algebra of mat3_funcs, mat3, mat2, matn
#include "vc.h"
#include "spec.h"
#define DFM2_HEADER_ONLY
#include "delfem2/mat2.h"
#include "delfem2/mat3.h"
#include "delfem2/mat3_funcs.h"
#include "delfem2/vec3.h"
#include "delfem2/vec2.h"
namespace d2 = delfem2;
typedef std::array<double,3> V3;
#define EQ9(l, a, b) vc_same<9>(a, b, l)

VC(mat3_products) {
  double A[9], B[9], r[9], e[9]; HAVOC(A); HAVOC(B);
  d2::MatMat3(r, A, B); spec::mm<3>(e, A, B); EQ9("MatMat3 = A B", r, e);
  d2::MatMatT3(r, A, B); spec::mmt<3>(e, A, B); EQ9("MatMatT3 = A B^T", r, e);
  d2::MatTMat3(r, A, B); spec::mtm<3>(e, A, B); EQ9("MatTMat3 = A^T B", r, e);
  d2::CMat3<double> a(A), b(B);
  auto c = a * b; spec::mm<3>(e, A, B); EQ9("CMat3 operator* = A B", c.p_, e);
  c = a.MatMat(b); EQ9("CMat3::MatMat = A B", c.p_, e);
}
VC(mat3_scaleadd) {
  double A[9], B[9], C[9], C0[9], e[9], al = vc_real("alpha"), be = vc_real("beta"); HAVOC(A); HAVOC(B); HAVOC(C0);
  for (int i = 0; i < 9; ++i) C[i] = C0[i];
  d2::MatTMat3_ScaleAdd(C, A, B, al, be);
  spec::mtm<3>(e, A, B);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("MatTMat3_ScaleAdd: C := alpha A^T B + beta C", C[i], al*e[i]+be*C0[i]);
  double v[3]; HAVOC(v);
  double S[9] = {0,-v[2],v[1], v[2],0,-v[0], -v[1],v[0],0};
  for (int i = 0; i < 9; ++i) C[i] = C0[i];
  d2::Mat3_Spin_ScaleAdd(C, v, al, be);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("Mat3_Spin_ScaleAdd: C := alpha [v]x + beta C", C[i], al*S[i]+be*C0[i]);
  for (int i = 0; i < 9; ++i) C[i] = C0[i];
  d2::Mat3_Identity_ScaleAdd(C, al, be);
  for (int i = 0; i < 9; ++i) ENSURES_EQ_L("Mat3_Identity_ScaleAdd: C := alpha I + beta C", C[i], (i%4==0?al:0)+be*C0[i]);
}
VC(mat3_vec) {
  double A[9], x[3], y[3], e[3], y0[3], al = vc_real("alpha"), be = vc_real("beta"); HAVOC(A); HAVOC(x); HAVOC(y0);
  d2::MatVec3(y, A, x); spec::mv<3>(e, A, x); vc_same<3>(y, e, "MatVec3 = A x");
  auto r = d2::Mat3Vec3(A, x); vc_same<3>(r.data(), e, "Mat3Vec3 = A x");
  d2::CMat3<double> m(A); d2::CVec3<double> xv(x[0], x[1], x[2]);
  auto w = m * xv; vc_same<3>(w.p, e, "CMat3*CVec3 = A x");
  r = m.MatVec(x); vc_same<3>(r.data(), e, "CMat3::MatVec = A x");
  for (int i = 0; i < 3; ++i) y[i] = y0[i];
  d2::MatVec3_ScaleAdd(y, A, x, al, be);
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("MatVec3_ScaleAdd: y := beta y + alpha A x", y[i], be*y0[i]+al*e[i]);
  spec::mtv<3>(e, A, x);
  d2::MatTVec3(y, A, x); vc_same<3>(y, e, "MatTVec3 = A^T x");
  d2::VecMat3(y, x, A); vc_same<3>(y, e, "VecMat3 = x^T A");
  m.MatVecTrans(x, y); vc_same<3>(y, e, "CMat3::MatVecTrans = A^T x");
  w = xv * m; vc_same<3>(w.p, e, "CVec3*CMat3 = x^T A");
  for (int i = 0; i < 3; ++i) y[i] = y0[i];
  d2::MatTVec3_ScaleAdd(y, A, x, al, be);
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("MatTVec3_ScaleAdd: y := beta y + alpha A^T x", y[i], be*y0[i]+al*e[i]);
}
VC(mat3_det_inverse) {
  double A[9], B[9], Ai[9], c[9]; HAVOC(A); HAVOC(B);
  ENSURES_EQ_L("Det_Mat3 = cofactor expansion", d2::Det_Mat3(A), spec::det3(A));
  ENSURES_EQ_L("CMat3::determinant", d2::CMat3<double>(A).determinant(), spec::det3(A));
  d2::MatMat3(c, A, B);
  ENSURES_EQ_L("det(AB) = det A det B", d2::Det_Mat3(c), d2::Det_Mat3(A)*d2::Det_Mat3(B));
  REQUIRES_NONZERO(spec::det3(A));
  d2::Inverse_Mat3(Ai, A);
  spec::mm<3>(c, A, Ai); for (int i = 0; i < 9; ++i) ENSURES_EQ_L("Inverse_Mat3: A A^-1 = I", c[i], (i%4==0));
  spec::mm<3>(c, Ai, A); for (int i = 0; i < 9; ++i) ENSURES_EQ_L("Inverse_Mat3: A^-1 A = I", c[i], (i%4==0));
  double P[9]; for (int i = 0; i < 9; ++i) P[i] = A[i];
  d2::Inverse_Mat3(P); EQ9("in-place inverse agrees", P, Ai);
  d2::CMat3<double> m(A), mi = m.Inverse(); EQ9("CMat3::Inverse agrees", mi.p_, Ai);
  m.SetInverse(); EQ9("CMat3::SetInverse agrees", m.p_, Ai);
}
VC(mat3_elementwise) {
  double A[9], B[9], t[9], s = vc_real("s"); HAVOC(A); HAVOC(B);
  d2::Transpose_Mat3(t, A);
  d2::CMat3<double> a(A), b(B);
  auto tr = a.transpose(), sym = a.Sym(), sum = a + b, dif = a - b, sc = s * a, sc2 = a * s, ng = -a, ap = a, am = a;
  ap += b; am -= b;
  double sq = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    const int k = i*3+j;
    ENSURES_EQ_L("Transpose_Mat3", t[k], A[j*3+i]);
    ENSURES_EQ_L("CMat3::transpose", tr(i,j), A[j*3+i]);
    ENSURES_EQ_L("CMat3::Sym = (A+A^T)/2", sym(i,j), (A[k]+A[j*3+i])/2);
    ENSURES_EQ_L("CMat3 operator+", sum(i,j), A[k]+B[k]); ENSURES_EQ_L("CMat3 operator+=", ap(i,j), A[k]+B[k]);
    ENSURES_EQ_L("CMat3 operator-", dif(i,j), A[k]-B[k]); ENSURES_EQ_L("CMat3 operator-=", am(i,j), A[k]-B[k]);
    ENSURES_EQ_L("scalar*CMat3", sc(i,j), s*A[k]); ENSURES_EQ_L("CMat3*scalar", sc2(i,j), s*A[k]);
    ENSURES_EQ_L("unary minus", ng(i,j), -A[k]); ENSURES_EQ_L("Get", a.Get(i,j), A[k]);
    ENSURES_EQ_L("Identity", d2::CMat3<double>::Identity(s)(i,j), i==j ? s : 0.0);
    sq += A[k]*A[k];
  }
  ENSURES_EQ_L("squaredNorm is the Frobenius norm", a.squaredNorm(), sq);
  ENSURES_EQ_L("trace", a.trace(), A[0]+A[4]+A[8]);
  REQUIRES_NONZERO(s);
  auto q = a / s; for (int k = 0; k < 9; ++k) ENSURES_EQ_L("CMat3/scalar", q.p_[k], A[k]/s);
  double o[9], o0[9]; HAVOC(o0);
  a.CopyTo(o); for (int k = 0; k < 9; ++k) ENSURES_EQ_L("CopyTo", o[k], A[k]);
  a.CopyToScale(o, s); for (int k = 0; k < 9; ++k) ENSURES_EQ_L("CopyToScale", o[k], s*A[k]);
  for (int k = 0; k < 9; ++k) o[k] = o0[k];
  a.AddToScale(o, s); for (int k = 0; k < 9; ++k) ENSURES_EQ_L("AddToScale", o[k], o0[k]+s*A[k]);
}
VC(mat3_builders) {
  double u[3], v[3], w[3]; HAVOC(u); HAVOC(v); HAVOC(w);
  d2::CVec3<double> U(u), V(v), W(w);
  double S[9], r[3], e[3];
  d2::Mat3_Spin(S, u); spec::mv<3>(r, S, v); spec::cross(e, u, v); vc_same<3>(r, e, "Mat3_Spin(u) v = u x v");
  auto Sa = d2::Mat3_Spin(U); spec::mv<3>(r, Sa.data(), v); vc_same<3>(r, e, "Mat3_Spin(VEC) v = u x v");
  auto Sk = d2::CMat3<double>::Skew(u); spec::mv<3>(r, Sk.p_, v); vc_same<3>(r, e, "CMat3::Skew(u) v = u x v");
  auto O = d2::Mat3_OuterProduct(U, V); auto O2 = d2::CMat3<double>::OuterProduct(u, v);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    ENSURES_EQ_L("Mat3_OuterProduct", O[i*3+j], u[i]*v[j]); ENSURES_EQ_L("CMat3::OuterProduct", O2(i,j), u[i]*v[j]); }
  auto B = d2::Mat3_From3Bases(U, V, W);
  for (int i = 0; i < 3; ++i) { ENSURES_EQ_L("bases are columns", B[i*3+0], u[i]); ENSURES_EQ_L("bases are columns", B[i*3+1], v[i]); ENSURES_EQ_L("bases are columns", B[i*3+2], w[i]); }
  double s6[6]; HAVOC(s6); d2::CMat3<double> Y; Y.SetSymetric(s6);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) ENSURES_EQ_L("SetSymetric is symmetric", Y(i,j), Y(j,i));
  for (int i = 0; i < 3; ++i) ENSURES_EQ_L("SetSymetric diagonal", Y(i,i), s6[i]);
  ENSURES_EQ_L("SquareNormFrobenius_SymMat3 agrees with the full matrix", d2::SquareNormFrobenius_SymMat3(s6), Y.squaredNorm());
}
VC(mat3_projection_mirror) {
  double n[3], v[3]; HAVOC(n); HAVOC(v);
  const double nn = spec::dot3(n, n); REQUIRES_NONZERO(nn);
  d2::CVec3<double> N(n);
  auto P = d2::Mat3_NormalProjection(N); auto M = d2::Mat3_Mirror(N);
  double r[3]; const double nv = spec::dot3(n, v);
  spec::mv<3>(r, P.data(), v); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("projection removes exactly the normal part", r[i], v[i]-nv/nn*n[i]);
  spec::mv<3>(r, M.data(), v); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("mirror reflects the normal part", r[i], v[i]-2*nv/nn*n[i]);
}
VC(mat3_homography) {
  double Z[9], x[2], y[2]; HAVOC(Z); HAVOC(x);
  const double w = Z[6]*x[0]+Z[7]*x[1]+Z[8]; REQUIRES_NONZERO(w);
  d2::Vec2_Mat3Vec2_Homography(y, Z, x);
  auto y2 = d2::Vec2_Mat3Vec2_Homography(Z, x);
  for (int i = 0; i < 2; ++i) {
    ENSURES_EQ_L("homography divides by w", y[i]*w, Z[i*3]*x[0]+Z[i*3+1]*x[1]+Z[i*3+2]);
    ENSURES_EQ_L("homography overload agrees", y2[i], y[i]); }
  d2::Vec2_Mat3Vec2_AffineDirection(y, Z, x);
  for (int i = 0; i < 2; ++i) ENSURES_EQ_L("directions ignore translation", y[i], Z[i*3]*x[0]+Z[i*3+1]*x[1]);
  double T[9], t[2], th = vc_real("theta"), R[9], R2[9]; HAVOC(t);
  d2::Mat3_AffineTranslation(T, t);
  d2::Vec2_Mat3Vec2_Homography(y, T, x); for (int i = 0; i < 2; ++i) ENSURES_EQ_L("affine translation adds t", y[i], x[i]+t[i]);
  d2::Mat3_AffineRotation(R, th);
  spec::rotaxis(R2, 2, th); EQ9("affine rotation turns by theta", R, R2);
}
VC(mat2_algebra) {
  double A[4], B[4], r[4], e[4], x[2], y[2], g[2]; HAVOC(A); HAVOC(B); HAVOC(x);
  d2::MatMat2(r, A, B); spec::mm<2>(e, A, B); vc_same<4>(r, e, "MatMat2 = A B");
  d2::MatVec2(y, A, x); spec::mv<2>(g, A, x); vc_same<2>(y, g, "MatVec2 = A x");
  d2::CMat2<double> a(A[0],A[1],A[2],A[3]), b(B[0],B[1],B[2],B[3]);
  auto c = a*b; vc_same<4>(c.p, e, "CMat2 operator* = A B");
  ENSURES_EQ_L("CMat2 determinant", a.determinant(), spec::det2(A));
  ENSURES_EQ_L("det(AB) = det A det B", c.determinant(), a.determinant()*b.determinant());
  auto t = a.transpose(); ENSURES_EQ_L("CMat2 transpose", t(0,1), A[2]); ENSURES_EQ_L("CMat2 transpose", t(1,0), A[1]);
  auto u = a; u.transposeInPlace(); for (int i = 0; i < 4; ++i) ENSURES_EQ_L("transposeInPlace agrees", u.p[i], t.p[i]);
  d2::gramian2(r, A); spec::mtm<2>(e, A, A); vc_same<4>(r, e, "gramian2 = A^T A");
  d2::CMat2<double> ap = a + b, am = a - b; 
  for (int i = 0; i < 4; ++i) { ENSURES_EQ_L("CMat2 +", ap.p[i], A[i]+B[i]); ENSURES_EQ_L("CMat2 -", am.p[i], A[i]-B[i]); }
  double l0 = vc_real("l0"), l1 = vc_real("l1"); d2::VLVt2(r, l0, l1, B);
  const double L[4] = {l0,0,0,l1}; double t1[4]; spec::mm<2>(t1, B, L); spec::mmt<2>(e, t1, B);
  vc_same<4>(r, e, "VLVt2 = V diag(l) V^T");
}
VC(mat2_inverse) {
  double A[4], Ai[4], c[4]; HAVOC(A);
  bool ok = d2::InverseMat2(Ai, A);
  const double d = spec::det2(A);
  ENSURES_L("InverseMat2 refuses exactly the nearly singular matrices", ok == !(d < 1e-10 && d > -1e-10));
  if (ok) { spec::mm<2>(c, A, Ai); for (int i = 0; i < 4; ++i) ENSURES_EQ_L("InverseMat2: A A^-1 = I", c[i], (i%3==0)); }
}
VC(mat2_polar) {
  double A[4]; HAVOC(A);
  d2::CMat2<double> a(A[0],A[1],A[2],A[3]), R, S;
  REQUIRES_NONZERO((A[0]+A[3])*(A[0]+A[3])+(A[2]-A[1])*(A[2]-A[1]));
  d2::polar_decomposition(R, S, a);
  vc_orthonormal<2>(R.p, "polar factor is orthogonal"); ENSURES_EQ_L("polar factor has det +1", R.determinant(), 1);
  ENSURES_EQ_L("S symmetric", S(0,1), S(1,0));
  double c[4]; spec::mm<2>(c, R.p, S.p); vc_same<4>(c, A, "M = R S");
}
VC(mat2_svd) {
  double A[4]; HAVOC(A);
  d2::CMat2<double> a(A[0],A[1],A[2],A[3]), U, S, V;
  REQUIRES_NONZERO((A[0]+A[3])*(A[0]+A[3])+(A[2]-A[1])*(A[2]-A[1]));
  // away from the branch that drops an off-diagonal below 1e-6
  { d2::CMat2<double> R0, S0; d2::polar_decomposition(R0, S0, a); const double o = S0(0,1); REQUIRES(o > 1e-6 || o < -1e-6);
    REQUIRES_NONZERO(o); }
  d2::svd(U, S, V, a);
  vc_orthonormal<2>(U.p, "U orthogonal"); vc_orthonormal<2>(V.p, "V orthogonal");
  ENSURES_GE_L("singular values sorted", S(0,0), S(1,1));
  // M = U diag(S) V^T up to the convention of the returned V
  double D[4] = {S(0,0),0,0,S(1,1)}, t[4], c[4]; spec::mm<2>(t, U.p, D); spec::mmt<2>(c, t, V.p);
  double c2[4]; spec::mm<2>(c2, t, V.p); (void)c2;
  vc_same<4>(c, A, "M = U S V^T");
}
VC(mat3_class_forms) {
  double A[9], B[9], e[9], v[3]; HAVOC(A); HAVOC(B); HAVOC(v); const d2::CMat3<double> a(A), b(B);
  auto c = a.MatMatTrans(b); spec::mtm<3>(e, A, B); vc_same<9>(c.p_, e, "MatMatTrans = A^T B");
  const double tr = A[0]+A[4]+A[8]; ENSURES_EQ_L("trace", a.trace(), tr);
  ENSURES_EQ_L("second invariant: sum of the principal minors", a.SecondInvarint(), A[0]*A[4]-A[1]*A[3] + A[0]*A[8]-A[2]*A[6] + A[4]*A[8]-A[5]*A[7]);
  ENSURES_L("no component is NaN", !a.isNaN());
  double C[9]; d2::Copy_Mat3(C, A); vc_same<9>(C, A, "Copy_Mat3");
  const double s = vc_real("s"); auto I = d2::Mat3_Identity<double>(s); double J[9]; d2::Mat3_Identity(J, s); for (int i = 0; i < 9; ++i) { ENSURES_EQ_L("Mat3_Identity", I[i], i%4 ? 0 : s); ENSURES_EQ_L("Mat3_Identity", J[i], I[i]); }
  auto S = a.Sym(); for (int i = 0; i < 9; ++i) ENSURES_EQ_L("symmetric part", S.p_[i], (A[i] + A[3*(i%3)+i/3])/2);
  double w[2]; d2::CMat2<double> m(A[0], A[1], A[2], A[3]); m.multiply_vec2(w, v); ENSURES_EQ_L("CMat2::multiply_vec2", w[0], A[0]*v[0]+A[1]*v[1]); ENSURES_EQ_L("CMat2::multiply_vec2", w[1], A[2]*v[0]+A[3]*v[1]);
  auto o = d2::CMat2<double>::outer_product(v, B); for (int i = 0; i < 4; ++i) ENSURES_EQ_L("CMat2::outer_product", o.p[i], v[i/2]*B[i%2]);
}
