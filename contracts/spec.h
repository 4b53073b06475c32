// Independent reference definitions used by the contracts (textbook formulas,
// written as plain loops; none of them calls delfem2).
#pragma once
#include <cmath>
#include <array>
#include <vector>
namespace spec {
template<int N> inline void mm(double *C, const double *A, const double *B) {
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += A[i*N+k]*B[k*N+j]; C[i*N+j] = s; } }
template<int N> inline void mmt(double *C, const double *A, const double *B) {
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += A[i*N+k]*B[j*N+k]; C[i*N+j] = s; } }
template<int N> inline void mtm(double *C, const double *A, const double *B) {
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0; for (int k = 0; k < N; ++k) s += A[k*N+i]*B[k*N+j]; C[i*N+j] = s; } }
template<int N> inline void mv(double *y, const double *A, const double *x) {
  for (int i = 0; i < N; ++i) { double s = 0; for (int k = 0; k < N; ++k) s += A[i*N+k]*x[k]; y[i] = s; } }
template<int N> inline void mtv(double *y, const double *A, const double *x) {
  for (int i = 0; i < N; ++i) { double s = 0; for (int k = 0; k < N; ++k) s += A[k*N+i]*x[k]; y[i] = s; } }
template<int N> inline double dot(const double *a, const double *b) { double s = 0; for (int k = 0; k < N; ++k) s += a[k]*b[k]; return s; }
inline double dot3(const double *a, const double *b) { return dot<3>(a, b); }
inline void cross(double *c, const double *a, const double *b) {
  c[0] = a[1]*b[2]-a[2]*b[1]; c[1] = a[2]*b[0]-a[0]*b[2]; c[2] = a[0]*b[1]-a[1]*b[0]; }
inline void sub3(double *c, const double *a, const double *b) { for (int i = 0; i < 3; ++i) c[i] = a[i]-b[i]; }
inline double det2(const double *m) { return m[0]*m[3]-m[1]*m[2]; }
inline double det3(const double *m) {
  return m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]); }
inline double det4(const double *m) {
  double s = 0;
  for (int c = 0; c < 4; ++c) {
    double t[9]; int n = 0;
    for (int i = 1; i < 4; ++i) for (int j = 0; j < 4; ++j) if (j != c) t[n++] = m[i*4+j];
    s += ((c & 1) ? -1.0 : 1.0) * m[c] * det3(t);
  }
  return s; }
// signed volume * 6 of a tetrahedron
inline double vol6(const double *a, const double *b, const double *c, const double *d) {
  double x[9]; for (int i = 0; i < 3; ++i) { x[i] = b[i]-a[i]; x[3+i] = c[i]-a[i]; x[6+i] = d[i]-a[i]; } return det3(x); }
inline double area2(const double *a, const double *b, const double *c) { // 2 * signed area, 2D
  return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]); }
// unit quaternion (x,y,z,w) from 4 free reals (every unit quaternion arises)
inline void unit4(double *q, const double *raw) {
  const double l = std::sqrt(dot<4>(raw, raw)); for (int i = 0; i < 4; ++i) q[i] = raw[i]/l; }
inline void unit3(double *q, const double *raw) {
  const double l = std::sqrt(dot<3>(raw, raw)); for (int i = 0; i < 3; ++i) q[i] = raw[i]/l; }
// Hamilton product (x,y,z,w)
inline void qmul(double *r, const double *p, const double *q) {
  double c[3]; cross(c, p, q);
  for (int i = 0; i < 3; ++i) r[i] = p[3]*q[i] + q[3]*p[i] + c[i];
  r[3] = p[3]*q[3] - dot<3>(p, q); }
// v -> q v q^-1 for a unit q
inline void qrot(double *o, const double *q, const double *v) {
  double p[4] = {v[0], v[1], v[2], 0}, qc[4] = {-q[0], -q[1], -q[2], q[3]}, t[4], u[4];
  qmul(t, q, p); qmul(u, t, qc); for (int i = 0; i < 3; ++i) o[i] = u[i]; }
// rotation matrix of a unit quaternion, column by column through qrot
inline void qmat(double *R, const double *q) {
  for (int j = 0; j < 3; ++j) { double e[3] = {0,0,0}, o[3]; e[j] = 1; qrot(o, q, e); for (int i = 0; i < 3; ++i) R[i*3+j] = o[i]; } }
inline void rotaxis(double *R, int axis, double t) { // rotation about a coordinate axis
  for (int i = 0; i < 9; ++i) R[i] = 0;
  int a = (axis+1)%3, b = (axis+2)%3;
  R[axis*3+axis] = 1; R[a*3+a] = std::cos(t); R[b*3+b] = std::cos(t); R[b*3+a] = std::sin(t); R[a*3+b] = -std::sin(t); }
inline double kron(int i, int j) { return i == j ? 1.0 : 0.0; }
}
template<int N> static inline void vc_orthonormal(const double *R, const char *l) {
  double t[N*N]; spec::mmt<N>(t, R, R);
  for (int i = 0; i < N; ++i) for (int j = 0; j <= i; ++j) vc_eq_(t[i*N+j], spec::kron(i, j), l); }
