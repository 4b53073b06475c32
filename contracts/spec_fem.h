// gradients of barycentric coordinates, written independently of delfem2
#pragma once
#include "spec.h"
namespace spec {
inline double tri_grad(double (*G)[2], const double (*X)[2]) { // returns the signed area
  const double A2 = area2(X[0], X[1], X[2]);
  for (int i = 0; i < 3; ++i) { const double *b = X[(i+1)%3], *c = X[(i+2)%3]; G[i][0] = (b[1]-c[1])/A2; G[i][1] = (c[0]-b[0])/A2; }
  return A2/2; }
inline double tet_grad(double (*G)[3], const double (*X)[3]) { // returns the signed volume
  const double V6 = vol6(X[0], X[1], X[2], X[3]);
  for (int d = 0; d < 3; ++d) G[0][d] = 0;
  for (int i = 1; i < 4; ++i) { double u[3], v[3], c[3]; sub3(u, X[i%3+1], X[0]); sub3(v, X[(i+1)%3+1], X[0]); cross(c, u, v); // nodes following i cyclically in 1,2,3
    for (int d = 0; d < 3; ++d) { G[i][d] = c[d]/V6; G[0][d] -= c[d]/V6; } }
  return V6/6; }
inline double grad(double (*G)[2], const double (*X)[2]) { return tri_grad(G, X); }
inline double grad(double (*G)[3], const double (*X)[3]) { return tet_grad(G, X); }
}
