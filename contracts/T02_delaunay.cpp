// dynamic triangle meshes: Delaunay flips around a point, for every answer of the geometric test
// @flags: -DDFM2_STATIC_LIBRARY
// @opts: prune=0
// @stub: delaunay_disc,delaunay_closed,delaunay_large /DetDelaunayI.*CVec2/ stub_det2
// @stub: delaunay3_disc,delaunay3_closed /DetDelaunayI.*CVec3/ stub_det3
// @assume: patches are enumerated: discs and closed surfaces of up to twelve triangles; every answer of the circumcircle test (a flip that would create an existing edge excluded)
#include <cassert>
#include <cmath>
#include <climits>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <stack>
#include <algorithm>
#include "vc.h"
#include "vc_tree.h"
#include "delfem2/vec2.h"
#include "delfem2/vec2.cpp"
#include "delfem2/vec3.h"
#include "delfem2/vec3_funcs.h"
#include "delfem2/geo_polygon2.h"
#include "delfem2/geo_polygon2.cpp"
#include "delfem2/geo_tri.h"
#include "delfem2/geo_tri.cpp"
#include "delfem2/geo_plane.h"
#include "delfem2/geodelaunay3_v3.h"
#include "delfem2/geodelaunay3_v3.cpp"
#include "delfem2/dtri_topology.h"
#include "delfem2/dtri_topology.cpp"
#include "dtri.h"
#include "delfem2/dtri2_v2dtri.h"
#include "delfem2/dtri3_v3dtri.h"
typedef double D; typedef d2::CVec2d V2; typedef d2::CVec3d V3;
// the geometric test is replaced by an arbitrary one, which gives the same answer to the same question; points carry their number
static M *g; static unsigned star, nq; static unsigned key[200]; static int ans[200];
static int ask(unsigned a, unsigned b, unsigned c, unsigned d) { if (edge(*g, star, d)) return 2; const unsigned k = tri(a, b, c)*64+d; for (unsigned i = 0; i < nq; ++i) if (key[i] == k) return ans[i]; const int r = vc_choose(2) ? 0 : 1 + (int)(k%3); key[nq] = k; ans[nq] = r; ++nq; return r; }
#define NUM(v) ((unsigned)(int)(v).p[0])
static int oracle(const V2 &a, const V2 &b, const V2 &c, const V2 &d) { return ask(NUM(a), NUM(b), NUM(c), NUM(d)); }
static int oracle(const V3 &a, const V3 &b, const V3 &c, const V3 &d) { return ask(NUM(a), NUM(b), NUM(c), NUM(d)); }
extern "C" int stub_det2(const V2 &a, const V2 &b, const V2 &c, const V2 &d) { return oracle(a, b, c, d); }
extern "C" int stub_det3(const V3 &a, const V3 &b, const V3 &c, const V3 &d) { return oracle(a, b, c, d); }
#ifndef VC_SYM
#define DetDelaunay oracle
#endif
#include "delfem2/dtri2_v2dtri.cpp"
#include "delfem2/dtri3_v3dtri.cpp"
static void around(unsigned k, unsigned style, bool three, int at = -1) {
  M m = build(k, style); g = &m; nq = 0; const unsigned p = at < 0 ? vc_choose((unsigned)m.p.size()) : (unsigned)at; star = p; const S w = tris(m); const H before = edges_of(m); const unsigned e0 = m.p[p].e;
  std::vector<V2> x2(m.p.size()); std::vector<V3> x3(m.p.size()); for (unsigned i = 0; i < m.p.size(); ++i) { x2[i] = V2(i, 0); x3[i] = V3(i, 0, 0); }
  if (three) ENSURES_L("done", d2::DelaunayAroundPoint(p, m.p, m.t, x3)); else d2::DelaunayAroundPoint(p, m.p, m.t, x2);
  valid(m); const S n = tris(m); ENSURES_L("as many triangles", n.size() == w.size()); if (e0 == NONE) { same(m, w, "unused point: nothing changes"); return; }
  const H after = edges_of(m); bool bd = true; for (unsigned a = 0; a < before.n; ++a) for (unsigned b = 0; b < before.n; ++b) { const bool x = before(a, b) != NONE && before(b, a) == NONE, y = after(a, b) != NONE && after(b, a) == NONE; bd = bd && x == y; } ENSURES_L("the border stays", bd);
  for (unsigned t : n) { const unsigned c[3] = {t/4096, t/64%64, t%64}; unsigned i = 3; for (unsigned j = 0; j < 3; ++j) if (c[j] == p) i = j; if (i == 3) { ENSURES_L("other triangles are old ones", find(w, t) == 1); continue; } const unsigned o = after(c[(i+2)%3], c[(i+1)%3]); if (o == NONE) continue; unsigned q = NONE; for (unsigned j = 0; j < 3; ++j) if (m.t[o].v[j] != c[(i+1)%3] && m.t[o].v[j] != c[(i+2)%3]) q = m.t[o].v[j]; if (edge(m, p, q)) continue; bool ok = false; for (unsigned j = 0; j < nq; ++j) ok = ok || (key[j] == t*64+q && ans[j] != 0); ENSURES_L("the edge opposite to the point passed the Delaunay test", ok); }
  for (unsigned t : w) { if (t/4096 == p || t/64%64 == p || t%64 == p) { const unsigned c[3] = {t/4096, t/64%64, t%64}; for (unsigned j = 0; j < 3; ++j) if (c[j] != p) ENSURES_L("neighbours stay neighbours", edge(m, p, c[j])); } }
}
VC(delaunay_disc) { around(vc_choose(6), vc_choose(3), false); }
VC(delaunay_closed) { around(9 + vc_choose(3), vc_choose(2), false); }
VC(delaunay_large) { around(7, 0, false, vc_choose(2) ? 5 : 2); }
VC(delaunay3_disc) { around(vc_choose(6), vc_choose(3), true); }
VC(delaunay3_closed) { around(9 + vc_choose(3), vc_choose(2), true); }
