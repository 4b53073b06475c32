// quads
// @opts: prune=2
// @stub: line_quad_intersection /iteration_intersection_Line_Quad/ stub_quad_iteration
#include "vc.h"
#include "spec.h"
#include <cassert>
#include <array>
#include <climits>
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_edge.h"
#include "delfem2/geo_quad.h"
namespace d2 = delfem2;
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
static V2 v2(const D *a) { return V2(a[0], a[1]); }
static V3 v3(const D *a) { return V3(a[0], a[1], a[2]); }
static D sq(const V2 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]; }
static D sq(const V3 &a) { return a.p[0]*a.p[0]+a.p[1]*a.p[1]+a.p[2]*a.p[2]; }
// quads: parallelograms (Newton is exact), the origin off the plane with its foot inside
VC(nearest_origin_quad) {
  D q[9]; HAVOC(q); const D s = vc_real("s"), t = vc_real("t"), h = vc_real("h"); const V3 a = v3(q), u = v3(q+3), v = v3(q+6), n = u.cross(v); REQUIRES(sq(n) > 1e-4); REQUIRES(s >= 0 && s <= 1 && t >= 0 && t <= 1); REQUIRES(h*h*sq(n) > 1e-4); const V3 o = a + s*u + t*v + h*n; D s0, s1; const V3 f = d2::Nearst_Origin3_Quad3(s0, s1, a-o, a+u-o, a+u+v-o, a+v-o); ENSURES_EQ_L("parameter", s0, s); ENSURES_EQ_L("parameter", s1, t); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("foot of the perpendicular", f.p[i], -h*n.p[i]);
}
VC(quad_iteration) { // one step is exact for a parallelogram
  D q[9], d[6]; HAVOC(q); HAVOC(d); const D s = vc_real("s"), t = vc_real("t"), w = vc_real("w"), t0 = vc_real("t0"), t1 = vc_real("t1"); const V3 a = v3(q), u = v3(q+3), v = v3(q+6), e = v3(d), g = v3(d+3), dir = e.cross(g); REQUIRES_NONZERO(dir.dot(u.cross(v))); const V3 o = a + s*u + t*v + w*dir; D r0 = t0, r1 = t1; d2::iteration_intersection_Line_Quad(r0, r1, o, e, g, a, a+u, a+u+v, a+v); ENSURES_EQ_L("parameter", r0, s); ENSURES_EQ_L("parameter", r1, t);
}
VC(quad_bilinear) { // the weights of the corners are the bilinear ones
  D q[12]; HAVOC(q); const D s = vc_real("s"), t = vc_real("t"); std::vector<V3> p; for (int i = 0; i < 6; ++i) p.push_back(i < 4 ? v3(q+3*i) : v3(q+3*(i-3))+v3(q)); std::vector<int> quad = {5, 0, 4, 1, 3, 2, 0, 5}; const int iq = (int)vc_choose(2), *c = quad.data()+4*iq;
  const V3 f = d2::QuadBilinear(iq, s, t, quad, p); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("bilinear interpolation", f.p[i], (p[c[0]].p[i]*(1-s)+p[c[1]].p[i]*s)*(1-t) + (p[c[3]].p[i]*(1-s)+p[c[2]].p[i]*s)*t);
}
// each of the five starting points of the line-quad intersection leads to some parameters (contract of the iteration: quad_iteration)
static D vc_root[5][2]; static int vc_calls; static const D *vc_src;
extern "C" void stub_quad_iteration(D *t0, D *t1, const V3 *src, const V3 *, const V3 *, const V3 *, const V3 *, const V3 *, const V3 *) { const int k = vc_calls/4, j = vc_calls%4; const D s[5][2] = {{0,0},{1,0},{1,1},{0,1},{.5,.5}}; ++vc_calls; if (j == 0) { ENSURES_EQ_L("starting point", *t0, s[k][0]); ENSURES_EQ_L("starting point", *t1, s[k][1]); } *t0 = vc_root[k][0]; *t1 = vc_root[k][1]; for (int i = 0; i < 3; ++i) ENSURES_EQ_L("source of the line", src->p[i], vc_src[i]); }
VC(line_quad_intersection) { // of the roots inside the quad the one nearest to the source; none if all are outside
  D q[15], n[3]; HAVOC(q); HAVOC(n); const V3 a = v3(q), b = v3(q+3), c = v3(q+6), d = v3(q+9), o = v3(q+12); vc_src = o.p; vc_calls = 0; REQUIRES(n[0]*n[0]+n[1]*n[1]+n[2]*n[2] > 1e-2); REQUIRES(n[2] < 0.9*std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]));
  const D r[4][2] = {{0.25, 0.5}, {0.75, 1.0}, {0.5, -0.5}, {1.5, 0.25}}; unsigned any = 0; for (unsigned k = 0; k < 5; ++k) { const unsigned m = k < 3 ? vc_choose(4) : k == 3 ? 2 : vc_choose(2)*3; vc_root[k][0] = r[m][0]; vc_root[k][1] = r[m][1]; any |= 1u << m; }
  auto at = [&](const D *t) { return (1-t[0])*(1-t[1])*a + t[0]*(1-t[1])*b + t[0]*t[1]*c + (1-t[0])*t[1]*d; }; const V3 p0 = at(r[0]), p1 = at(r[1]); const D d0 = sq(p0-o), d1 = sq(p1-o); REQUIRES(d0 > 1e-2); REQUIRES(d1 > 1e-2); if ((any & 3) == 3) REQUIRES((p0-o).norm() + 1e-3 < (p1-o).norm() || (p1-o).norm() + 1e-3 < (p0-o).norm());
  V3 x; D s0 = 7, s1 = 7; const bool hit = d2::intersection_Point_Quad(x, s0, s1, o, v3(n), a, b, c, d); ENSURES_L("found if and only if a root lies inside", hit == ((any & 3) != 0)); if (!hit) return;
  const bool first = !(any & 2) || ((any & 1) && (p0-o).norm() < (p1-o).norm()); const V3 w = first ? p0 : p1; const D *t = r[first ? 0 : 1]; ENSURES_EQ_L("parameter", s0, t[0]); ENSURES_EQ_L("parameter", s1, t[1]); for (int i = 0; i < 3; ++i) ENSURES_EQ_L("point of the quad", x.p[i], w.p[i]);
}
