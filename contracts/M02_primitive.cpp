// M02: primitive meshes, extrusion, subdivision and analytic shapes.
// @flags: -DDFM2_STATIC_LIBRARY
// @opts: prune=0
// @opts_for: box_shape prune=2
// @opts_for: sphere_shape,plane_shape,cylinder_shape,torus_shape,shape_rays prune=1
// @assume: numbers of divisions and connectivities are enumerated (up to four by four divisions, two to three elements); radii, lengths and coordinates are arbitrary
#include <cassert>
#include <cmath>
#include <climits>
#include <vector>
#include "vc.h"
#include "spec.h"
#include "delfem2/msh_primitive.h"
#include "delfem2/msh_primitive.cpp"
namespace d2 = delfem2;
using D = double; typedef std::vector<D> V; typedef std::vector<unsigned int> U;
static D sq(D x) { return x*x; }
// every edge of the triangles is used twice, once in each direction; the number of points not used
static void closed(const U &t, unsigned np, int euler) { const unsigned nt = (unsigned)t.size()/3; unsigned bad = 0, unused = 0, range = 0; for (unsigned k = 0; k < 3*nt; ++k) range += t[k] >= np; ENSURES_L("points exist", range == 0 && t.size() == 3*nt); if (range) return; std::vector<int> use(np, 0), m(np*np, 0); for (unsigned e = 0; e < nt; ++e) for (unsigned k = 0; k < 3; ++k) { ++m[t[3*e+k]*np+t[3*e+(k+1)%3]]; ++use[t[3*e+k]]; }
  for (unsigned i = 0; i < np; ++i) { unused += use[i] == 0; for (unsigned j = 0; j < np; ++j) bad += m[i*np+j] > 1 || m[i*np+j] != m[j*np+i]; bad += m[i*np+i] != 0; } ENSURES_L("closed, consistently oriented surface", bad == 0); ENSURES_L("every point is used", unused == 0); ENSURES_L("Euler characteristic", 2*(int)np == (int)nt + 2*euler); }
static D det(const D *a, const D *b, const D *c) { return a[0]*(b[1]*c[2]-b[2]*c[1])+a[1]*(b[2]*c[0]-b[0]*c[2])+a[2]*(b[0]*c[1]-b[1]*c[0]); }
VC(grid_quad) { const unsigned nx = vc_choose(4), ny = vc_choose(4); V x(5, 1.0); U q(3, 1); d2::MeshQuad2D_Grid(x, q, nx, ny); ENSURES(x.size() == 2*(nx+1)*(ny+1)); ENSURES(q.size() == 4*nx*ny); std::vector<int> cell(nx*ny+1, 0); for (unsigned e = 0; e < nx*ny; ++e) { unsigned ok = 0; for (unsigned k = 0; k < 4; ++k) ok += q[4*e+k] < (nx+1)*(ny+1); ENSURES_L("points exist", ok == 4); if (ok < 4) return; const D *p = &x[2*q[4*e]]; const D d[4][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}}; for (unsigned k = 0; k < 4; ++k) for (int j = 0; j < 2; ++j) ENSURES_EQ_L("unit square, anticlockwise", x[2*q[4*e+k]+j], p[j]+d[k][j]); ++cell[(unsigned)p[1]*nx+(unsigned)p[0]]; } for (unsigned e = 0; e < nx*ny; ++e) ENSURES_L("each cell once", cell[e] == 1); }
VC(grid_hex) { const unsigned nx = vc_choose(3), ny = vc_choose(3), nz = vc_choose(3); const D l = vc_real("l"); V x(5, 1.0); U q(3, 1); d2::MeshHex3_Grid(x, q, nx, ny, nz, l); const unsigned np = (nx+1)*(ny+1)*(nz+1), nh = nx*ny*nz; ENSURES(x.size() == 3*np); ENSURES(q.size() == 8*nh); if (q.size() != 8*nh) return; std::vector<int> first(np, 0); for (unsigned e = 0; e < nh; ++e) { const D *p = &x[3*q[8*e]]; ++first[q[8*e]]; const D d[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (unsigned k = 0; k < 8; ++k) for (int j = 0; j < 3; ++j) ENSURES_EQ_L("cube of the given side, right-handed", x[3*q[8*e+k]+j], p[j]+l*d[k][j]); }
  for (unsigned p = 0; p < np; ++p) ENSURES_L("each cell once", first[p] < 2); unsigned i = 0; for (unsigned iz = 0; iz <= nz; ++iz) for (unsigned iy = 0; iy <= ny; ++iy) for (unsigned ix = 0; ix <= nx; ++ix, ++i) { ENSURES_EQ_L("grid point", x[3*i], l*ix); ENSURES_EQ_L("grid point", x[3*i+1], l*iy); ENSURES_EQ_L("grid point", x[3*i+2], l*iz); } }
VC(cube) { const unsigned n = vc_choose(4); V x(5, 1.0); U t(3, 1); d2::MeshTri3D_Cube(x, t, n); if (n == 0) { ENSURES(x.empty() && t.empty()); return; } const unsigned np = (unsigned)x.size()/3; ENSURES(t.size() == 36*n*n); closed(t, np, 2); D vol = 0; for (unsigned p = 0; p < np; ++p) { D m = 1; for (int k = 0; k < 3; ++k) { ENSURES_GE_L("in the unit cube", 0.5+1e-9, x[3*p+k]); ENSURES_GE_L("in the unit cube", x[3*p+k], -0.5-1e-9); m *= 0.25-sq(x[3*p+k]); } ENSURES_GE_L("on its surface", 1e-9, m < 0 ? -m : m); } for (unsigned e = 0; e < t.size()/3; ++e) { const D d = det(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]]); ENSURES_GE_L("faces outwards", d, 1e-9); vol += d; } ENSURES_GE_L("unit volume", 1e-9, sq(vol/6-1)); }
VC(cube_vox) { D a[3], b[3]; HAVOC(a); HAVOC(b); V x(3, 1.0); U q; d2::MeshQuad3_CubeVox(x, q, a, b); ENSURES(x.size() == 24); ENSURES(q.size() == 24); U t; for (unsigned f = 0; f < 6; ++f) { const unsigned c[6] = {0, 1, 2, 2, 3, 0}; for (unsigned k : c) t.push_back(q[4*f+k]); } closed(t, 8, 2); for (unsigned p = 0; p < 8; ++p) for (unsigned k = 0; k < 3; ++k) ENSURES_EQ_L("corner", x[3*p+k], (p >> k & 1) ? b[k] : a[k]); D vol = 0; for (unsigned e = 0; e < 12; ++e) vol += det(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]]); ENSURES_EQ_L("outward faces: the volume of the box", vol, 6*(b[0]-a[0])*(b[1]-a[1])*(b[2]-a[2])); for (unsigned f = 0; f < 6; ++f) { const unsigned k = f/2; for (unsigned j = 1; j < 4; ++j) ENSURES_EQ_L("planar face", x[3*q[4*f+j]+k], x[3*q[4*f]+k]); ENSURES_EQ_L("order of the faces", x[3*q[4*f]+k], f%2 ? b[k] : a[k]); } }
VC(icosahedron) { V x; U t; d2::MeshTri3D_Icosahedron(x, t); ENSURES(x.size() == 36); ENSURES(t.size() == 60); closed(t, 12, 2); for (unsigned e = 0; e < 20; ++e) { for (unsigned k = 0; k < 3; ++k) { D d = 0; for (int j = 0; j < 3; ++j) d += sq(x[3*t[3*e+k]+j]-x[3*t[3*e+(k+1)%3]+j]); ENSURES_EQ_L("all sides equal", d, 4); } ENSURES_GE_L("faces outwards", det(&x[3*t[3*e]], &x[3*t[3*e+1]], &x[3*t[3*e+2]]), 1); } for (unsigned p = 1; p < 12; ++p) ENSURES_EQ_L("on a sphere", sq(x[3*p])+sq(x[3*p+1])+sq(x[3*p+2]), sq(x[0])+sq(x[1])+sq(x[2])); }
VC(sphere) { const unsigned nl = 1+vc_choose(4), nr = 2+vc_choose(4); const D r = vc_real("r"); REQUIRES(r > 0); V x(4, 1.0); U t(2, 1); d2::MeshTri3D_Sphere(x, t, r, nl, nr); if (nl < 2 || nr < 3) { ENSURES(x.empty() && t.empty()); return; } const unsigned np = (unsigned)x.size()/3; ENSURES(np == nr*(nl-1)+2); closed(t, np, 2); for (unsigned p = 0; p < np; ++p) ENSURES_EQ_L("on the sphere", sq(x[3*p])+sq(x[3*p+1])+sq(x[3*p+2]), r*r); ENSURES_EQ_L("pole", x[1], r); V y; U u; d2::MeshTri3D_Sphere(y, u, 1.0, nl, nr); for (unsigned k = 0; k < 3*np; ++k) ENSURES_EQ_L("proportional to the radius", x[k], r*y[k]); for (unsigned e = 0; e < t.size()/3; ++e) ENSURES_GE_L("faces outwards", det(&y[3*t[3*e]], &y[3*t[3*e+1]], &y[3*t[3*e+2]]), 0.01); }
static void crs(const D *a, const D *b, const D *c, D n[3]) { D u[3], v[3]; for (int k = 0; k < 3; ++k) { u[k] = b[k]-a[k]; v[k] = c[k]-a[k]; } for (int k = 0; k < 3; ++k) n[k] = u[(k+1)%3]*v[(k+2)%3]-u[(k+2)%3]*v[(k+1)%3]; }
// surfaces with a border: every edge at most once in each direction; number of edges of the border
static void bordered(const U &t, unsigned np, unsigned border) { unsigned nb = 0, bad = 0, unused = 0; std::vector<int> m(np*np, 0), use(np, 0); for (unsigned k : t) { if (k >= np) { ENSURES_L("points exist", false); return; } use[k] = 1; } for (unsigned e = 0; e < t.size()/3; ++e) for (unsigned k = 0; k < 3; ++k) ++m[t[3*e+k]*np+t[3*e+(k+1)%3]]; for (unsigned i = 0; i < np; ++i) { unused += !use[i]; for (unsigned j = 0; j < np; ++j) { bad += m[i*np+j] > 1; nb += m[i*np+j] != m[j*np+i]; } } ENSURES_L("consistently oriented", bad == 0); ENSURES_L("border", nb == 2*border); ENSURES_L("every point is used", unused == 0); }
VC(disk) { const int nr = 1+(int)vc_choose(3), nt = 3+(int)vc_choose(3); const D r = vc_real("r"); REQUIRES(r > 0); V x(4, 1.0), y; U t(2, 1), u; d2::MeshTri3D_Disk(x, t, r, nr, nt); d2::MeshTri3D_Disk(y, u, 1.0, nr, nt); const unsigned np = 1+nr*nt; ENSURES(x.size() == 3*np); ENSURES(t.size() == 3u*nt*(2*nr-1)); bordered(t, np, nt);
  for (unsigned p = 0; p < np; ++p) { ENSURES_EQ_L("in the plane", x[3*p+1], 0); const int ir = p == 0 ? 0 : 1+((int)p-1)/nt; ENSURES_EQ_L("on its circle", (sq(x[3*p])+sq(x[3*p+2]))*nr*nr, r*r*ir*ir); } for (unsigned e = 0; e < t.size()/3; ++e) { D n[3]; crs(&y[3*u[3*e]], &y[3*u[3*e+1]], &y[3*u[3*e+2]], n); ENSURES_GE_L("faces up", n[1], 0.01); } }
VC(cylinder_open) { const unsigned nr = 3+vc_choose(3), nl = 1+vc_choose(3); const D r = vc_real("r"), l = vc_real("l"); REQUIRES(r > 0); REQUIRES(l > 0); V x(4, 1.0), y; U t(2, 1), u; d2::MeshTri3D_CylinderOpen(x, t, r, l, nr, nl); d2::MeshTri3D_CylinderOpen(y, u, 1.0, 1.0, nr, nl); const unsigned np = nr*(nl+1); ENSURES(x.size() == 3*np); ENSURES(t.size() == 6*nr*nl); bordered(t, np, 2*nr); for (unsigned p = 0; p < np; ++p) { ENSURES_EQ_L("on the cylinder", sq(x[3*p])+sq(x[3*p+2]), r*r); ENSURES_EQ_L("equal rings, centred", x[3*p+1]*2*nl, l*((int)(2*(p/nr))-(int)nl)); }
  for (unsigned e = 0; e < t.size()/3; ++e) { D n[3]; const D *a = &y[3*u[3*e]], *b = &y[3*u[3*e+1]], *c = &y[3*u[3*e+2]]; crs(a, b, c, n); ENSURES_GE_L("faces outwards", n[0]*(a[0]+b[0]+c[0])+n[2]*(a[2]+b[2]+c[2]), 0.01); } }
VC(cylinder_closed) { const unsigned nr = 2+vc_choose(4), nl = vc_choose(4); const D r = vc_real("r"), l = vc_real("l"); REQUIRES(r > 0); REQUIRES(l > 0); V x(4, 1.0), y; U t(2, 1), u; d2::MeshTri3D_CylinderClosed(x, t, r, l, nr, nl); if (nr < 3 || nl < 1) { ENSURES(x.empty() && t.empty()); return; } d2::MeshTri3D_CylinderClosed(y, u, 1.0, 1.0, nr, nl); const unsigned np = nr*(nl+1)+2; ENSURES(x.size() == 3*np); closed(t, np, 2); for (unsigned p = 1; p+1 < np; ++p) { ENSURES_EQ_L("on the cylinder", sq(x[3*p])+sq(x[3*p+2]), r*r); ENSURES_EQ_L("equal rings, centred", x[3*p+1]*2*nl, l*((int)(2*((p-1)/nr))-(int)nl)); }
  for (unsigned c = 0; c < 2; ++c) { const unsigned p = c ? np-1 : 0; ENSURES_EQ_L("centre of the cap", x[3*p], 0); ENSURES_EQ_L("centre of the cap", x[3*p+1], c ? l/2 : -l/2); ENSURES_EQ_L("centre of the cap", x[3*p+2], 0); } for (unsigned e = 0; e < t.size()/3; ++e) ENSURES_GE_L("faces outwards", det(&y[3*u[3*e]], &y[3*u[3*e+1]], &y[3*u[3*e+2]]), 0.01); }
VC(capsule) { const unsigned nc = 3+vc_choose(2), nr = 1+vc_choose(3), nl = 1+vc_choose(3); const D r = vc_real("r"), l = vc_real("l"); REQUIRES(r > 0); REQUIRES(l > 0); V x(4, 1.0), y; U t(2, 1), u; d2::MeshTri3_Capsule(x, t, r, l, nc, nr, nl); d2::MeshTri3_Capsule(y, u, 1.0, 1.0, nc, nr, nl); const unsigned np = nc*(2*nr+nl-1)+2; ENSURES(x.size() == 3*np); closed(t, np, 2); for (unsigned p = 0; p < np; ++p) { const unsigned ring = p == 0 ? 0 : 1+(p-1)/nc, last = 2*nr+nl; const D *q = &x[3*p]; if (ring <= nr) ENSURES_EQ_L("on the lower half sphere", sq(q[0])+sq(q[1]+l/2)+sq(q[2]), r*r); else if (ring >= last-nr) ENSURES_EQ_L("on the upper half sphere", sq(q[0])+sq(q[1]-l/2)+sq(q[2]), r*r); else ENSURES_EQ_L("on the cylinder", sq(q[0])+sq(q[2]), r*r); }
  ENSURES_EQ_L("lower pole", x[1], -l/2-r); ENSURES_EQ_L("upper pole", x[3*np-2], l/2+r); for (unsigned e = 0; e < t.size()/3; ++e) ENSURES_GE_L("faces outwards", det(&y[3*u[3*e]], &y[3*u[3*e+1]], &y[3*u[3*e+2]]), 0.001); }
VC(torus) { const unsigned num[3] = {3, 4, 6}, ng = num[vc_choose(3)], nt = num[vc_choose(3)]; const D R = vc_real("R"), r = vc_real("r"); V x(4, 1.0), y; U t(2, 1), u; d2::MeshTri3_Torus(x, t, R, r, ng, nt); d2::MeshTri3_Torus(y, u, 3.0, 1.0, ng, nt); const unsigned np = ng*nt; ENSURES(x.size() == 3*np); ENSURES(t.size() == 6*np); closed(t, np, 0); for (unsigned p = 0; p < np; ++p) { const D a = p/nt*2*M_PI/ng, b = p%nt*2*M_PI/nt; const D q = std::cos(a)*x[3*p+1]+std::sin(a)*x[3*p]; ENSURES_EQ_L("around the axis", x[3*p+1]*std::sin(a), x[3*p]*std::cos(a)); ENSURES_EQ_L("on the tube", sq(q-R)+sq(x[3*p+2]), r*r); (void)b; }
  for (unsigned e = 0; e < t.size()/3; ++e) { D n[3]; const D *P[3] = {&y[3*u[3*e]], &y[3*u[3*e+1]], &y[3*u[3*e+2]]}; crs(P[0], P[1], P[2], n); D s = 0; for (int i = 0; i < 3; ++i) { const D h = std::sqrt(sq(P[i][0])+sq(P[i][1])); const D o[3] = {P[i][0]-3*P[i][0]/h, P[i][1]-3*P[i][1]/h, P[i][2]}; for (int k = 0; k < 3; ++k) s += n[k]*o[k]; } ENSURES_GE_L("faces outwards", s, 0.01); } }
// --- analytic shapes: penetration depth (positive inside), outward normal, side
static D dot(const D *a, const D *b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
VC(plane_shape) { D n[3], o[3], p[3], m[3]; HAVOC(n); HAVOC(o); HAVOC(p); const d2::CPlane<D> s(n, o); const D d = s.Projection(m, p[0], p[1], p[2]); D e = 0; for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("normal", m[k], n[k]); e += n[k]*(o[k]-p[k]); } ENSURES_EQ_L("depth below the plane", d, e); }
VC(sphere_shape) { D c[3], p[3], n[3]; HAVOC(c); HAVOC(p); const D r = vc_real("r"); REQUIRES(r > 0); const bool out = vc_choose(2); const d2::CSphere<D> s(r, V(c, c+3), out); D u[3]; for (int k = 0; k < 3; ++k) u[k] = p[k]-c[k]; const D l = std::sqrt(dot(u, u)); REQUIRES_NONZERO(l); const D d = s.Projection(n, p[0], p[1], p[2]); ENSURES_EQ_L("depth", d, out ? r-l : l-r); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("unit normal", n[k]*l, out ? u[k] : -u[k]);
  const bool in = vc_choose(2); if (in) REQUIRES(l < r); else REQUIRES(l > r); ENSURES_L("inside or outside of the ball", s.FindInOut(p[0], p[1], p[2]) == (in ? 0u : 1u)); }
VC(cylinder_shape) { D c[3], a[3], p[3], n[3]; HAVOC(c); HAVOC(a); HAVOC(p); const D r = vc_real("r"); REQUIRES(r > 0); const D aa = dot(a, a); REQUIRES_NONZERO(aa); const bool out = vc_choose(2); d2::CCylinder<D> s; if (vc_choose(2)) s = d2::CCylinder<D>(r, c, a, out); else { s.SetCenter(c); s.SetDirection(a); s.SetRadius(r); s.is_out_ = out; } D u[3]; for (int k = 0; k < 3; ++k) u[k] = p[k]-c[k]; const D t = dot(u, a)/aa; for (int k = 0; k < 3; ++k) u[k] = p[k]-(c[k]+t*a[k]); const D l = std::sqrt(dot(u, u)); REQUIRES_NONZERO(l); const D d = s.Projection(n, p[0], p[1], p[2]); ENSURES_EQ_L("depth from the axis", d, out ? r-l : l-r); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("unit normal", n[k]*l, out ? u[k] : -u[k]);
  const bool in = vc_choose(2); if (in) REQUIRES(l < r); else REQUIRES(l > r); ENSURES_L("inside or outside", s.FindInOut(p[0], p[1], p[2]) == (in ? 0u : 1u)); }
VC(torus_shape) { d2::CTorus<D> s; for (int k = 0; k < 3; ++k) s.cent_[k] = vc_real("c"); s.radius_ = vc_real("R"); s.radius_tube_ = vc_real("r"); REQUIRES(s.radius_ > 0); REQUIRES(s.radius_tube_ > 0); D p[3], n[3]; HAVOC(p); const bool axis = vc_choose(2); if (axis) { p[0] = s.cent_[0]; p[1] = s.cent_[1]; } const D x = p[0]-s.cent_[0], y = p[1]-s.cent_[1], z = p[2]-s.cent_[2]; const D h = std::sqrt(x*x+y*y); if (!axis) REQUIRES(h > 1e-19); const D q = std::sqrt(sq(h-s.radius_)+z*z); REQUIRES_NONZERO(q); const D d = s.Projection(n, p[0], p[1], p[2]); ENSURES_EQ_L("depth from the circle", sq(s.radius_tube_-d), q*q); ENSURES_GE_L("at most the radius of the tube", s.radius_tube_, d); ENSURES_EQ_L("unit normal", dot(n, n), 1); if (!axis) { ENSURES_EQ_L("away from the circle", n[2]*(s.radius_tube_-d), z); ENSURES_EQ_L("away from the circle", n[0]*(s.radius_tube_-d)*h, x*(h-s.radius_)); ENSURES_EQ_L("away from the circle", n[1]*(s.radius_tube_-d)*h, y*(h-s.radius_)); } }
VC(torus_side) { d2::CTorus<D> s; D p[3]; HAVOC(p); s.radius_ = vc_real("R"); s.radius_tube_ = vc_real("r"); REQUIRES(s.radius_ > 0); REQUIRES(s.radius_tube_ > 0); D n[3]; const D h = std::sqrt(sq(p[0])+sq(p[1])); REQUIRES(h > 1e-19); const D d = s.Projection(n, p[0], p[1], p[2]); const bool in = vc_choose(2); if (in) REQUIRES(d > 0); else REQUIRES(d <= 0); ENSURES_L("inside or outside", s.FindInOut(p[0], p[1], p[2]) == (in ? 0u : 1u)); }
VC(box_shape) { // every octant; inside and in the regions of the faces, the edges and the corners outside
  d2::CBox<D> s; s.hwx = vc_real("w"); s.hwy = vc_real("w"); s.hwz = vc_real("w"); const D w[3] = {s.hwx, s.hwy, s.hwz}; D p[3], n[3], g[3], f[3]; bool in = true; for (int k = 0; k < 3; ++k) { REQUIRES(w[k] > 0); const bool neg = vc_choose(2); f[k] = neg ? -1 : 1; const D x = vc_real("x"); p[k] = f[k]*x; REQUIRES(x > 0); if (vc_choose(2)) { REQUIRES(x > w[k]); g[k] = x-w[k]; in = false; } else { REQUIRES(x < w[k]); g[k] = 0; } }
  const D d = s.Projection(n, p[0], p[1], p[2]); if (!in) { ENSURES_EQ_L("distance outside", d*d, dot(g, g)); ENSURES_GE_L("negative outside", 0, d); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("away from the nearest point", n[k]*-d, f[k]*g[k]); }
  else { D prod = 1; for (int k = 0; k < 3; ++k) { const D e = w[k]-f[k]*p[k]; ENSURES_GE_L("no face is nearer", e, d); prod *= d-e; } ENSURES_EQ_L("distance to a face", prod, 0); ENSURES_GE_L("positive inside", d, 0); D m = 0; for (int k = 0; k < 3; ++k) { ENSURES_GE_L("outward", n[k]*f[k], 0); ENSURES_EQ_L("along an axis", n[k]*(n[k]*f[k]-1), 0); ENSURES_EQ_L("of the nearest face", n[k]*(d-(w[k]-f[k]*p[k])), 0); m += n[k]*f[k]; } ENSURES_EQ_L("unit normal", m, 1); } }
VC(shape_rays) { // a ray meets the surface at the far point of the line, or nowhere
  D c[3], o[3], d[3], p[3], a[3]; HAVOC(c); HAVOC(o); HAVOC(d); HAVOC(a); const D r = vc_real("r"); const bool cyl = vc_choose(2); const D aa = cyl ? dot(a, a) : 1; REQUIRES_NONZERO(aa); D q[3], e[3]; for (int k = 0; k < 3; ++k) { q[k] = o[k]-c[k]; e[k] = d[k]; } if (cyl) { const D s = dot(q, a)/aa, t = dot(d, a)/aa; for (int k = 0; k < 3; ++k) { q[k] -= s*a[k]; e[k] -= t*a[k]; } } const D A = dot(e, e), B = dot(q, e), C = dot(q, q)-r*r; REQUIRES_NONZERO(A); const bool hit = vc_choose(2); if (hit) REQUIRES(B*B-A*C >= 0); else REQUIRES(B*B-A*C < 0);
  const bool z = cyl ? d2::CCylinder<D>(r, c, a, true).IntersectionPoint(p, o, d) : d2::CSphere<D>(r, V(c, c+3), true).IntersectionPoint(p, o, d); ENSURES_L("meets the surface or not", z == hit); if (!hit || !z) return; const D t = (-B+std::sqrt(B*B-A*C))/A; for (int k = 0; k < 3; ++k) ENSURES_EQ_L("far point of the line", p[k], o[k]+t*d[k]); D u[3]; for (int k = 0; k < 3; ++k) u[k] = p[k]-c[k]; if (!cyl) ENSURES_EQ_L("on the surface", dot(u, u), r*r); else ENSURES_EQ_L("on the surface", dot(u, u)-sq(dot(u, a))/aa, r*r); }
