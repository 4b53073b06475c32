// S02: bounding volumes (axis-aligned boxes in 2D and 3D, spheres) and the k-d tree.
// @flags:
// @stub: kdtree_step /SearchNearstPoint/ rec_search
// @stub: kdtree_construct /ConstructNode/ rec_construct
#include <cassert>
#include <cmath>
#include <limits>
#include <vector>
#include <algorithm>
#include "vc.h"
#include "spec.h"
#include "delfem2/vec2.h"
#include "delfem2/vec3.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv2_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_kdtree.h"
namespace d2 = delfem2;
using D = double; using B = d2::CBV3_AABB<D>; using B2 = d2::CBoundingBox2<D>; using S = d2::CBV3_Sphere<D>; using V = std::vector<D>;

// --- three-dimensional boxes
static B box(bool active) { B b; if (!active) { b.Set_Inactive(); return b; } for (int k = 0; k < 3; ++k) { b.bbmin[k] = vc_real("min"); b.bbmax[k] = vc_real("max"); REQUIRES(b.bbmin[k] <= b.bbmax[k]); } return b; }
// the box spans exactly the ranges of the arguments
static void hull(const B &r, const D *lo0, const D *hi0, const D *lo1, const D *hi1) {
  ENSURES_L("active", r.IsActive());
  for (int k = 0; k < 3; ++k) { ENSURES_GE_L("contains the first (lower side)", lo0[k], r.bbmin[k]); ENSURES_GE_L("contains the second (lower side)", lo1[k], r.bbmin[k]); ENSURES_EQ_L("no lower than needed", (r.bbmin[k]-lo0[k])*(r.bbmin[k]-lo1[k]), 0);
    ENSURES_GE_L("contains the first (upper side)", r.bbmax[k], hi0[k]); ENSURES_GE_L("contains the second (upper side)", r.bbmax[k], hi1[k]); ENSURES_EQ_L("no higher than needed", (r.bbmax[k]-hi0[k])*(r.bbmax[k]-hi1[k]), 0); }
}
static void equal(const B &a, const B &b) { for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("same lower side", a.bbmin[k], b.bbmin[k]); ENSURES_EQ_L("same upper side", a.bbmax[k], b.bbmax[k]); } }
VC(aabb_union) { const unsigned m = vc_choose(4), how = vc_choose(3); B a = box(m & 1); const B a0 = a, b = box(m & 2); V mn(b.bbmin, b.bbmin+3), mx(b.bbmax, b.bbmax+3);
  if (how == 0) a += b; else if (how == 1) { a.Add_AABBVec3({b.bbmin[0], b.bbmax[0], b.bbmin[1], b.bbmax[1], b.bbmin[2], b.bbmax[2]}); } else a.Add_MinMax(mn, mx);
  if (m == 3) hull(a, a0.bbmin, a0.bbmax, b.bbmin, b.bbmax); else if (m == 2) { ENSURES_L("active", a.IsActive()); equal(a, b); } else if (m == 1) { ENSURES_L("active", a.IsActive()); equal(a, a0); } else ENSURES_L("stays inactive", !a.IsActive()); }
VC(aabb_add_point) { const bool act = vc_choose(2); B a = box(act); const B a0 = a; D p[3]; HAVOC(p); D e = vc_real("e"); const unsigned how = vc_choose(3); if (how == 0) { e = 0; a += p; } else if (how == 1) { REQUIRES(e >= 0); a.AddPoint(p, e); } else { REQUIRES(e < 0); a.AddPoint(p, e); }
  if (how == 2) { if (act) equal(a, a0); else ENSURES_L("stays inactive", !a.IsActive()); return; }
  D lo[3], hi[3]; for (int k = 0; k < 3; ++k) { lo[k] = p[k]-e; hi[k] = p[k]+e; }
  if (act) hull(a, a0.bbmin, a0.bbmax, lo, hi); else { ENSURES_L("active", a.IsActive()); for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("point with margin (lower)", a.bbmin[k], lo[k]); ENSURES_EQ_L("point with margin (upper)", a.bbmax[k], hi[k]); } } }
VC(aabb_intersect) { // on every axis: before, overlapping, after
  const unsigned m = vc_choose(4); B a = box(m & 1), b = box(m & 2); bool common = m == 3; if (m == 3) for (int k = 0; k < 3; ++k) { const unsigned r = vc_choose(3); if (r == 0) { REQUIRES(a.bbmax[k] < b.bbmin[k]); common = false; } else if (r == 1) { REQUIRES(b.bbmax[k] < a.bbmin[k]); common = false; } else { REQUIRES(a.bbmax[k] >= b.bbmin[k]); REQUIRES(b.bbmax[k] >= a.bbmin[k]); } }
  ENSURES_L("boxes meet if and only if their ranges overlap on every axis", a.IsIntersect(b) == common); ENSURES_L("symmetric", b.IsIntersect(a) == common); }
VC(aabb_include_point) { const bool act = vc_choose(2); const B a = box(act); D p[3]; HAVOC(p); bool in = act; if (act) for (int k = 0; k < 3; ++k) { const unsigned r = vc_choose(3); if (r == 0) { REQUIRES(p[k] < a.bbmin[k]); in = false; } else if (r == 1) { REQUIRES(p[k] > a.bbmax[k]); in = false; } else { REQUIRES(p[k] >= a.bbmin[k]); REQUIRES(p[k] <= a.bbmax[k]); } }
  ENSURES_L("a point is inside if and only if it is in the range of every axis", a.isInclude_Point(p[0], p[1], p[2]) == in); }
VC(aabb_include_box) { const unsigned m = vc_choose(4); const B a = box(m & 1), b = box(m & 2); bool in = (m & 1) != 0; if (m == 3) for (int k = 0; k < 3; ++k) { const unsigned r = vc_choose(3); if (r == 0) { REQUIRES(b.bbmin[k] < a.bbmin[k]); in = false; } else if (r == 1) { REQUIRES(b.bbmin[k] >= a.bbmin[k]); REQUIRES(b.bbmax[k] > a.bbmax[k]); in = false; } else { REQUIRES(b.bbmin[k] >= a.bbmin[k]); REQUIRES(b.bbmax[k] <= a.bbmax[k]); } }
  ENSURES_L("a box includes another if and only if it does on every axis", a.IsInclude_AABB3(b) == in); }
VC(aabb_distance) { const B a = box(true); D p[3], q[3]; HAVOC(p); HAVOC(q); D s = 0; for (int k = 0; k < 3; ++k) { REQUIRES(q[k] >= a.bbmin[k]); REQUIRES(q[k] <= a.bbmax[k]); const unsigned r = vc_choose(3); if (r == 0) { REQUIRES(p[k] < a.bbmin[k]); s += (a.bbmin[k]-p[k])*(a.bbmin[k]-p[k]); } else if (r == 1) { REQUIRES(p[k] > a.bbmax[k]); s += (p[k]-a.bbmax[k])*(p[k]-a.bbmax[k]); } else { REQUIRES(p[k] >= a.bbmin[k]); REQUIRES(p[k] <= a.bbmax[k]); } }
  const D d = a.MinimumDistance(p[0], p[1], p[2]); ENSURES_EQ_L("distance to the nearest point of the box", d*d, s); ENSURES_GE_L("not negative", d, 0); }
VC(aabb_measures) { B a = box(true); const D x = a.bbmax[0]-a.bbmin[0], y = a.bbmax[1]-a.bbmin[1], z = a.bbmax[2]-a.bbmin[2]; const D l = a.DiagonalLength(); ENSURES_EQ_L("diagonal", l*l, x*x+y*y+z*z); ENSURES_GE_L("not negative", l, 0);
  const D m = a.MaxLength(); ENSURES_GE_L("no side is longer (x)", m, x); ENSURES_GE_L("no side is longer (y)", m, y); ENSURES_GE_L("no side is longer (z)", m, z); ENSURES_EQ_L("length of a side", (m-x)*(m-y)*(m-z), 0);
  const V c = a.Center(); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centre", c[k], (a.bbmin[k]+a.bbmax[k])/2);
  D t[6]; a.GetCenterWidth(t[0], t[1], t[2], t[3], t[4], t[5]); for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("centre is read", t[k], c[k]); ENSURES_EQ_L("width is read", t[3+k], a.bbmax[k]-a.bbmin[k]); } B b; b.SetCenterWidth(t[0], t[1], t[2], t[3], t[4], t[5]); equal(b, a);
  const V v = a.AABBVec3(); B e(v), f; f.Set_AABBVec3(v); equal(e, a); equal(f, a); B g, h(V(a.bbmin, a.bbmin+3), V(a.bbmax, a.bbmax+3)), i(a.bbmin, a.bbmax); g.Set_MinMax(V(a.bbmin, a.bbmin+3), V(a.bbmax, a.bbmax+3)); equal(g, a); equal(h, a); equal(i, a);
  const V P = a.Point3D_Vox(); ENSURES_L("eight corners", P.size() == 24); for (int j = 0; j < 8; ++j) for (int k = 0; k < 3; ++k) ENSURES_EQ_L("corner", P[j*3+k], (j >> k & 1) ? a.bbmax[k] : a.bbmin[k]);
  B n; ENSURES_L("a new box is inactive", !n.IsActive()); ENSURES_L("a box is active", a.IsActive()); a.Set_Inactive(); ENSURES_L("made inactive", !a.IsActive()); }

// --- two-dimensional boxes
static B2 box2() { B2 b; b.x_min = vc_real("xmin"); b.x_max = vc_real("xmax"); b.y_min = vc_real("ymin"); b.y_max = vc_real("ymax"); REQUIRES(b.x_min <= b.x_max); REQUIRES(b.y_min <= b.y_max); return b; }
static void hull2(D r0, D r1, D a0, D a1, D b0, D b1) { ENSURES_GE_L("contains the first (lower side)", a0, r0); ENSURES_GE_L("contains the second (lower side)", b0, r0); ENSURES_EQ_L("no lower than needed", (r0-a0)*(r0-b0), 0); ENSURES_GE_L("contains the first (upper side)", r1, a1); ENSURES_GE_L("contains the second (upper side)", r1, b1); ENSURES_EQ_L("no higher than needed", (r1-a1)*(r1-b1), 0); }
VC(bb2_add) { const bool act = vc_choose(2), pt = vc_choose(2); B2 a; if (act) a = box2(); const B2 a0 = a; B2 b = box2(); if (pt) { b.x_max = b.x_min; b.y_max = b.y_min; a.Add(b.x_min, b.y_min); } else a += b; ENSURES_L("active", a.isActive());
  if (act) { hull2(a.x_min, a.x_max, a0.x_min, a0.x_max, b.x_min, b.x_max); hull2(a.y_min, a.y_max, a0.y_min, a0.y_max, b.y_min, b.y_max); } else { ENSURES_EQ(a.x_min, b.x_min); ENSURES_EQ(a.x_max, b.x_max); ENSURES_EQ(a.y_min, b.y_min); ENSURES_EQ(a.y_max, b.y_max); }
  const B2 c = a; B2 n; a += n; ENSURES_EQ(a.x_min, c.x_min); ENSURES_EQ(a.x_max, c.x_max); ENSURES_EQ(a.y_min, c.y_min); ENSURES_EQ(a.y_max, c.y_max); n += B2(); ENSURES_L("stays inactive", !n.isActive()); }
VC(bb2_intersect) { const B2 a = box2(), b = box2(); const D c = vc_real("c"); REQUIRES(c >= 0); bool common = true; const unsigned r = vc_choose(3), s = vc_choose(3);
  if (r == 0) { REQUIRES(b.x_min - a.x_max > c); common = false; } else if (r == 1) { REQUIRES(a.x_min - b.x_max > c); common = false; } else { REQUIRES(b.x_min - a.x_max <= c); REQUIRES(a.x_min - b.x_max <= c); }
  if (s == 0) { REQUIRES(b.y_min - a.y_max > c); common = false; } else if (s == 1) { REQUIRES(a.y_min - b.y_max > c); common = false; } else { REQUIRES(b.y_min - a.y_max <= c); REQUIRES(a.y_min - b.y_max <= c); }
  ENSURES_L("boxes closer than the clearance on every axis", a.IsIntersect(b, c) == common); ENSURES_L("symmetric", b.IsIntersect(a, c) == common); }
VC(bb2_measures) { const B2 a = box2(); const D d = a.LengthDiagonal(); ENSURES_EQ_L("diagonal", d*d, (a.x_max-a.x_min)*(a.x_max-a.x_min)+(a.y_max-a.y_min)*(a.y_max-a.y_min)); ENSURES_GE_L("not negative", d, 0); const V v = a.MinMaxXYZ(); const D e[6] = {a.x_min, a.x_max, a.y_min, a.y_max, 0, 0}; for (int i = 0; i < 6; ++i) ENSURES_EQ_L("ranges", v[i], e[i]);
  B2 n; ENSURES_L("a new box is inactive", !n.isActive()); const B2 g(a.x_min, a.x_max, a.y_min, a.y_max); ENSURES_EQ(g.x_max, a.x_max); ENSURES_EQ(g.y_min, a.y_min);
  d2::CVec2<D> p; p.p[0] = vc_real("px"); p.p[1] = vc_real("py"); const D r = vc_real("r"); REQUIRES(r >= 0); ENSURES_L("nothing meets an inactive box", !n.IsIntersectSphere(p, r)); }
VC(bb2_sphere) { // a disc that has a point in the box is reported; one beyond a side is not
  const B2 a = box2(); d2::CVec2<D> p; p.p[0] = vc_real("px"); p.p[1] = vc_real("py"); const D r = vc_real("r"); REQUIRES(r >= 0);
  if (vc_choose(2)) { const D x = vc_real("x"), y = vc_real("y"); REQUIRES(x >= a.x_min); REQUIRES(x <= a.x_max); REQUIRES(y >= a.y_min); REQUIRES(y <= a.y_max); REQUIRES((x-p.p[0])*(x-p.p[0])+(y-p.p[1])*(y-p.p[1]) <= r*r); REQUIRES(fabs(x-p.p[0]) <= r /* follows */); REQUIRES(fabs(y-p.p[1]) <= r /* follows */); ENSURES_L("a disc with a point in the box is reported", a.IsIntersectSphere(p, r)); }
  else { switch (vc_choose(4)) { case 0: REQUIRES(p.p[0]+r < a.x_min); break; case 1: REQUIRES(p.p[0]-r > a.x_max); break; case 2: REQUIRES(p.p[1]+r < a.y_min); break; default: REQUIRES(p.p[1]-r > a.y_max); } ENSURES_L("a disc beyond a side is not", !a.IsIntersectSphere(p, r)); } }

// --- spheres.  The second centre is the first plus L times a unit direction.
static S sphere() { S s; for (int k = 0; k < 3; ++k) s.c[k] = vc_real("c"); s.r = vc_real("r"); REQUIRES(s.r >= 0); return s; }
VC(sphere_new) { S s; ENSURES_L("a new sphere is inactive", !s.IsActive()); S t = sphere(); ENSURES_L("active", t.IsActive()); t.Set_Inactive(); ENSURES_L("made inactive", !t.IsActive()); }
VC(sphere_add) { // smallest sphere that contains both: r >= L + R, R >= L + r, otherwise the one that touches both far ends
  S a = sphere(); const S a0 = a; S b = sphere(); D u[3]; HAVOC(u); REQUIRES(u[0]*u[0]+u[1]*u[1]+u[2]*u[2] == 1); const D L = vc_real("L"); REQUIRES(L > 0); for (int k = 0; k < 3; ++k) b.c[k] = a.c[k]+L*u[k]; const bool op = vc_choose(2); const unsigned m = vc_choose(3);
  if (m == 0) { REQUIRES(a.r > L + b.r); } else if (m == 1) { REQUIRES(b.r > L + a.r); } else { REQUIRES(a.r <= L + b.r); REQUIRES(b.r <= L + a.r); REQUIRES(L > 1e-5*(a.r + b.r)); } const S b0 = b; if (op) a += b; else a.AddPoint(b.c, b.r);
  if (m == 0) { ENSURES_EQ_L("contained: radius", a.r, a0.r); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("contained: centre", a.c[k], a0.c[k]); }
  else if (m == 1) { ENSURES_EQ_L("containing: radius", a.r, b0.r); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("containing: centre", a.c[k], b0.c[k]); }
  else { ENSURES_EQ_L("diameter from far end to far end", 2*a.r, L + a0.r + b0.r); for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("the far end of the first is on the sphere", a.c[k]-a.r*u[k], a0.c[k]-a0.r*u[k]); ENSURES_EQ_L("the far end of the second is on the sphere", a.c[k]+a.r*u[k], b0.c[k]+b0.r*u[k]); } } }
VC(sphere_add_concentric) { S a = sphere(), b = sphere(); const S a0 = a; D u[3]; HAVOC(u); REQUIRES(u[0]*u[0]+u[1]*u[1]+u[2]*u[2] == 1); const D L = vc_real("L"); REQUIRES(L > 0); for (int k = 0; k < 3; ++k) b.c[k] = a.c[k]+L*u[k]; REQUIRES(a.r <= L + b.r); REQUIRES(b.r <= L + a.r); REQUIRES(L <= 1e-5*(a.r + b.r)); a += b; for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centre stays", a.c[k], a0.c[k]); ENSURES_GE_L("contains the first", a.r, a0.r); ENSURES_GE_L("contains the second", a.r, L + b.r); ENSURES_GE_L("radius grows by the offset at most", a0.r + 2*L, a.r); }
VC(sphere_add_inactive) { S a = sphere(), n, b; const S a0 = a; n += a; ENSURES_EQ_L("takes over the radius", n.r, a.r); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("takes over the centre", n.c[k], a.c[k]); a += b; ENSURES_EQ_L("nothing to add: radius", a.r, a0.r); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("nothing to add: centre", a.c[k], a0.c[k]); b += S(); ENSURES_L("stays inactive", !b.IsActive()); }
VC(sphere_intersect) { S a = sphere(), b = sphere(); const D L = vc_real("L"); D s = 0; for (int k = 0; k < 3; ++k) s += (a.c[k]-b.c[k])*(a.c[k]-b.c[k]); REQUIRES(L >= 0); REQUIRES(L*L == s); const bool in = vc_choose(2); if (in) REQUIRES(L <= a.r + b.r); else REQUIRES(L > a.r + b.r); ENSURES_L("spheres meet if and only if the distance of the centres is at most the sum of the radii", a.IsIntersect(b) == in); ENSURES_L("symmetric", b.IsIntersect(a) == in); }
VC(sphere_include) { S a = sphere(), b = sphere(); const D L = vc_real("L"), m = vc_real("margin"); D s = 0; for (int k = 0; k < 3; ++k) s += (a.c[k]-b.c[k])*(a.c[k]-b.c[k]); REQUIRES(L >= 0); REQUIRES(L*L == s); const bool in = vc_choose(2); if (in) REQUIRES(L + b.r <= a.r + m); else REQUIRES(L + b.r > a.r + m); ENSURES_L("included if and only if the distance and the radius fit with the margin", a.IsInclude(b, m) == in); }
VC(sphere_include_point) { S a = sphere(); D p[3]; HAVOC(p); D s = 0; for (int k = 0; k < 3; ++k) s += (a.c[k]-p[k])*(a.c[k]-p[k]); const bool in = vc_choose(2); if (in) REQUIRES(s < a.r*a.r); else REQUIRES(s >= a.r*a.r); ENSURES_L("a point is inside if and only if it is nearer than the radius", a.isInclude_Point(p[0], p[1], p[2]) == in); }
VC(sphere_range) { S a = sphere(); D p[3], q[3]; HAVOC(p); HAVOC(q); const D L = vc_real("L"), d = vc_real("d"), e = vc_real("e"); D s = 0, t = 0, w = 0; for (int k = 0; k < 3; ++k) { s += (a.c[k]-p[k])*(a.c[k]-p[k]); t += (q[k]-p[k])*(q[k]-p[k]); w += (q[k]-a.c[k])*(q[k]-a.c[k]); } REQUIRES(L >= 0); REQUIRES(L*L == s); REQUIRES(d >= 0); REQUIRES(d*d == t); REQUIRES(e >= 0); REQUIRES(e*e == w); REQUIRES(e <= a.r); REQUIRES(d <= L + e /* triangle inequality */); REQUIRES(d >= L - e /* triangle inequality */); const bool in = vc_choose(2); if (in) REQUIRES(L < a.r); else REQUIRES(L >= a.r);
  D lo = vc_real("lo"), hi = vc_real("hi"); a.Range_DistToPoint(lo, hi, p[0], p[1], p[2]); ENSURES_GE_L("no point of the sphere is nearer", d, lo); ENSURES_GE_L("no point of the sphere is farther", hi, d); ENSURES_EQ_L("lower bound", lo, in ? 0 : L - a.r); ENSURES_EQ_L("upper bound", hi, L + a.r); }
VC(sphere_range_inactive) { S a; D lo = vc_real("lo"), hi = vc_real("hi"); const D l0 = lo, h0 = hi; a.Range_DistToPoint(lo, hi, vc_real("x"), vc_real("y"), vc_real("z")); ENSURES_EQ(lo, l0); ENSURES_EQ(hi, h0); }
VC(sphere_line) { // foot of the centre on the line: src + t dir, at distance h
  S a = sphere(); D s[3], d[3]; HAVOC(d); const D t = vc_real("t"), h = vc_real("h"); D f[3]; HAVOC(f); const D dd = d[0]*d[0]+d[1]*d[1]+d[2]*d[2]; REQUIRES_POS(dd, 1e-3); REQUIRES(d[0]*f[0]+d[1]*f[1]+d[2]*f[2] == 0); REQUIRES(h >= 0); REQUIRES(h*h == f[0]*f[0]+f[1]*f[1]+f[2]*f[2]); for (int k = 0; k < 3; ++k) { a.c[k] = vc_real("c"); s[k] = a.c[k]+f[k]-t*d[k]; }
  const bool in = vc_choose(2); if (in) REQUIRES(h <= a.r); else REQUIRES(h > a.r); ENSURES_L("a line meets the sphere if and only if its distance is at most the radius", a.IsIntersectLine(s, d) == in); }
VC(sphere_ray) { S a = sphere(); D s[3], d[3]; HAVOC(d); const D t = vc_real("t"), h = vc_real("h"), g = vc_real("g"); D f[3]; HAVOC(f); const D dd = d[0]*d[0]+d[1]*d[1]+d[2]*d[2]; REQUIRES_POS(dd, 1e-3); REQUIRES(d[0]*f[0]+d[1]*f[1]+d[2]*f[2] == 0); REQUIRES(h >= 0); REQUIRES(h*h == f[0]*f[0]+f[1]*f[1]+f[2]*f[2]); REQUIRES(g >= 0); REQUIRES(g*g == h*h+t*t*dd); for (int k = 0; k < 3; ++k) { a.c[k] = vc_real("c"); s[k] = a.c[k]+f[k]-t*d[k]; }
  bool in; switch (vc_choose(4)) { case 0: REQUIRES(g <= a.r); in = true; break; case 1: REQUIRES(g > a.r); REQUIRES(t < 0); in = false; break; case 2: REQUIRES(g > a.r); REQUIRES(t >= 0); REQUIRES(h <= a.r); in = true; break; default: REQUIRES(g > a.r); REQUIRES(t >= 0); REQUIRES(h > a.r); in = false; }
  ENSURES_L("a ray meets the sphere if and only if it starts inside or its foot is ahead and within the radius", a.IsIntersectRay(s, d) == in); }
VC(sphere_points4) { S a; D p[4][3]; for (int i = 0; i < 4; ++i) vc_reals(p[i], 3, "p"); const D c = vc_real("clearance"); REQUIRES(c >= 0); D q[4]; for (int k = 0; k < 3; ++k) q[k] = p[3][k]; q[3] = 0; a.SetPoints4(p[0], p[1], p[2], q, c); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centre", 4*a.c[k], p[0][k]+p[1][k]+p[2][k]+p[3][k]);
  D prod = 1; for (int i = 0; i < 4; ++i) { D s = 0; for (int k = 0; k < 3; ++k) s += (a.c[k]-p[i][k])*(a.c[k]-p[i][k]); const D l = sqrt(s); ENSURES_GE_L("contains the point with clearance", a.r, l + c); prod *= a.r - c - l; } ENSURES_EQ_L("touches one of the points", prod, 0); }

// --- k-d tree of points; the points carry a number to tell which one is reported
struct P3 { using Scalar = D; D p[3] = {0, 0, 0}; int id = -1; P3() {} P3(D x, D y, D z, int i = -1) : p{x, y, z}, id(i) {} D operator[](unsigned i) const { return p[i]; } P3 operator-(const P3 &o) const { return P3(p[0]-o.p[0], p[1]-o.p[1], p[2]-o.p[2]); } D norm() const { return sqrt(p[0]*p[0]+p[1]*p[1]+p[2]*p[2]); } };
// Induction over the tree: the recursive call is replaced by the contract of the function itself, on a subtree of any shape
// and size.  One arbitrary point of the subtree is followed (vc_any); the point the call reports is another arbitrary one.
using Node = d2::KDTNodePoint<P3>;
static D norm(const P3 &a, const P3 &b) { return (a-b).norm(); }
static Node vc_node, vc_child[2]; static P3 vc_any[2], vc_rep[2]; static unsigned vc_depth; static P3 vc_query;
extern "C" P3 rec_search(const Node *n, P3 Q, int depth, double &closest) {
  const int k = n == &vc_child[0] ? 0 : 1; ENSURES_L("recursion into a child", n == &vc_child[k]); ENSURES_L("one level deeper", depth == (int)vc_depth+1); for (unsigned i = 0; i < 3; ++i) ENSURES_EQ_L("same query", Q.p[i], vc_query.p[i]); ENSURES_GE_L("limit is not negative", closest, 0);
  if (vc_choose(2)) { REQUIRES(norm(vc_any[k], Q) >= closest); return P3(vc_real("unset"), vc_real("unset"), vc_real("unset")); }
  REQUIRES(norm(vc_rep[k], Q) < closest); closest = norm(vc_rep[k], Q); REQUIRES(norm(vc_any[k], Q) >= closest); return vc_rep[k]; }
static P3 point(int id) { const D x = vc_real("x"), y = vc_real("y"), z = vc_real("z"); return P3(x, y, z, id); }
VC(kdtree_step) {
  vc_depth = vc_choose(5); const unsigned m = vc_choose(4), ax = vc_depth%3; vc_query = point(-1); const P3 Q = vc_query; vc_node = Node(); vc_node.separator = point(0); const P3 s = vc_node.separator;
  for (int k = 0; k < 2; ++k) if (m >> k & 1) { vc_any[k] = point(1+k); vc_rep[k] = point(3+k); if (k == 0) { vc_node.rightChild = &vc_child[0]; REQUIRES(vc_any[0].p[ax] >= s.p[ax]); REQUIRES(vc_rep[0].p[ax] >= s.p[ax]); } else { vc_node.leftChild = &vc_child[1]; REQUIRES(vc_any[1].p[ax] <= s.p[ax]); REQUIRES(vc_rep[1].p[ax] <= s.p[ax]); } }
#ifndef VC_SYM  // run on the real callee: a child is a leaf with the followed point
  for (int k = 0; k < 2; ++k) { vc_any[k].id = 3+k; vc_rep[k] = vc_any[k]; vc_child[k] = Node(); vc_child[k].separator = vc_any[k]; }
#endif
  D limit = vc_real("limit"); const D l0 = limit; REQUIRES(limit >= 0); const P3 r = d2::SearchNearstPoint<P3>(&vc_node, Q, (int)vc_depth, limit);
  ENSURES_GE_L("never beyond the limit", l0, limit); ENSURES_GE_L("not farther than the separator", norm(s, Q), limit); for (int k = 0; k < 2; ++k) if (m >> k & 1) ENSURES_GE_L("not farther than any point of the subtree", norm(vc_any[k], Q), limit);
  if (r.id < 0) ENSURES_EQ_L("nothing found within the limit", limit, l0); else { ENSURES_EQ_L("distance of the reported point", limit, norm(r, Q)); const bool ok = r.id == 0 || r.id == 3 || r.id == 4; ENSURES_L("a point of the subtree", ok); if (ok) { const P3 &e = r.id == 0 ? s : vc_rep[r.id-3]; for (unsigned i = 0; i < 3; ++i) ENSURES_EQ_L("its position", r.p[i], e.p[i]); } } }
VC(kdtree_entry) { // the search from the root has no limit
  vc_node = Node(); vc_node.separator = point(0); vc_query = point(-1); const P3 Q = vc_query; REQUIRES(norm(vc_node.separator, Q) < 1e300); const P3 r = d2::SearchNearstPoint<P3>(&vc_node, Q); ENSURES_L("the only point", r.id == 0); }
// construction: the median separates the range of points, which is handed to the children
static std::vector<P3> vc_points; static unsigned vc_begin, vc_end, vc_seen; static Node vc_root; static int vc_mask;
extern "C" void rec_construct(Node *n, std::vector<P3> p, const int b, const int e, const int depth) {
  const unsigned ax = vc_depth%3; const bool right = n == vc_root.rightChild; ENSURES_L("a new child", right || n == vc_root.leftChild); ENSURES_L("linked to its parent", n->parent == &vc_root && n->leftChild == nullptr && n->rightChild == nullptr); ENSURES_L("one level deeper", depth == (int)vc_depth+1); ENSURES_L("a range that is not empty", b < e && b >= (int)vc_begin && e <= (int)vc_end);
  for (int i = b; i < e; ++i) { vc_seen |= 1u << p[i].id; if (right) ENSURES_GE_L("on the upper side", p[i].p[ax], vc_root.separator.p[ax]); else ENSURES_GE_L("on the lower side", vc_root.separator.p[ax], p[i].p[ax]); } vc_mask += e-b; }
#ifndef VC_SYM
static void walk(const Node *n, bool right) { vc_seen |= 1u << n->separator.id; ++vc_mask; const unsigned ax = vc_depth%3; if (right) ENSURES_GE_L("on the upper side", n->separator.p[ax], vc_root.separator.p[ax]); else ENSURES_GE_L("on the lower side", vc_root.separator.p[ax], n->separator.p[ax]); for (const Node *c : {n->leftChild, n->rightChild}) if (c != nullptr) walk(c, right); }
#endif
VC(kdtree_construct) {
  vc_depth = vc_choose(4); const unsigned n = 1 + vc_choose(4); vc_begin = vc_choose(2); vc_end = vc_begin+n; const unsigned tail = vc_choose(2); vc_points.clear(); for (unsigned i = 0; i < vc_end+tail; ++i) vc_points.push_back(point((int)i)); vc_seen = 0; vc_mask = 0; vc_root = Node();
  d2::ConstructNode<P3>(&vc_root, vc_points, (int)vc_begin, (int)vc_end, (int)vc_depth);
#ifndef VC_SYM
  for (const Node *c : {vc_root.leftChild, vc_root.rightChild}) if (c != nullptr) walk(c, c == vc_root.rightChild);
#endif
  vc_seen |= 1u << vc_root.separator.id; ENSURES_L("every point of the range is the separator or in one child", vc_seen == ((1u << n)-1) << vc_begin && vc_mask == (int)n-1); for (unsigned i = 0; i < 3; ++i) ENSURES_EQ_L("separator is a point", vc_root.separator.p[i], vc_points[vc_root.separator.id].p[i]); }
// whole trees
static void kd(unsigned n, bool any_order) {
  std::vector<P3> p(n); for (unsigned i = 0; i < n; ++i) p[i] = point((int)i);
  if (!any_order) for (unsigned i = 0; i+1 < n; ++i) REQUIRES(p[i].p[0] > p[i+1].p[0]);
  const P3 Q = point(-1); const Node *t = d2::ConstructKDT(p); P3 r;
  for (const P3 &v : p) { REQUIRES(norm(v, Q) < 1e300); for (int k = 0; k < 3; ++k) REQUIRES(fabs(Q.p[k]-v.p[k]) < 1e300); }
  r = d2::SearchNearstPoint(t, Q);
  ENSURES_L("one of the points", r.id >= 0 && r.id < (int)n); for (unsigned k = 0; k < 3; ++k) ENSURES_EQ_L("its position", r.p[k], p[r.id].p[k]); const D s = norm(r, Q); for (const P3 &v : p) ENSURES_GE_L("no point is nearer", norm(v, Q), s);
}
VC(kdtree_whole) { kd(1 + vc_choose(3), true); }
VC(sphere_add_covers) { // a point of either sphere is in the union (centres along an axis; sphere_add has the general direction)
  S a = sphere(), b; const unsigned ax = vc_choose(3); const D r0 = a.r, c0[3] = {a.c[0], a.c[1], a.c[2]}, g = vc_real("g"), h = vc_real("h"), e = vc_real("e"); /* the centre moves by g of L = g+h */ D u[3] = {0, 0, 0}, w[3]; u[ax] = 1; HAVOC(w); const D L = g+h; REQUIRES(L > 0); for (int k = 0; k < 3; ++k) b.c[k] = c0[k]+L*u[k]; b.r = r0+g-h; REQUIRES(b.r >= 0); const bool first = vc_choose(2);
  switch (vc_choose(3)) { case 0: REQUIRES(g < 0); break; case 1: REQUIRES(h < 0); break; default: REQUIRES(g >= 0); REQUIRES(h >= 0); REQUIRES(L > 1e-5*(a.r + b.r)); } REQUIRES(e >= 0); REQUIRES(e <= (first ? r0 : b.r)); REQUIRES(w[0]*w[0]+w[1]*w[1]+w[2]*w[2] == e*e); REQUIRES(w[ax] <= e /* follows */); REQUIRES(w[ax] >= -e /* follows */);
  D q[3]; for (int k = 0; k < 3; ++k) q[k] = (first ? c0[k] : b.c[k])+w[k]; a += b; D s = 0; for (int k = 0; k < 3; ++k) s += (q[k]-a.c[k])*(q[k]-a.c[k]); ENSURES_GE_L("the point is in the union", a.r*a.r, s); ENSURES_GE_L("active", a.r, 0); }
