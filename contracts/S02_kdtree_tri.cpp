// S02: k-d tree of triangles.  Induction over the tree: the recursive call is replaced by the contract of the function.
// @flags:
// @opts_for: kdtri_box_beyond,kdtri_box_between prune=2
// @stub: kdtri_step /SearchNearestRecursive/ rec_nearest
// @stub: kdtri_step /KDTNodeTriangle8distance/ stub_box
// @stub: kdtri_construct /ConstructKDTree/ rec_build
#include <cassert>
#include <cmath>
#include <limits>
#include <vector>
#include <algorithm>
#include <iostream>
#include "vc.h"
#include "delfem2/vec3.h"
#define private public
#include "delfem2/srch_kdtree_tri.h"
#undef private
namespace d2 = delfem2;
using D = double; using V3 = d2::CVec3<D>; using K = d2::KDTTriangle<V3>; using Node = K::KDTNodeTriangle; using Cand = std::vector<K::iss>;
static V3 point() { const D x = vc_real("x"), y = vc_real("y"), z = vc_real("z"); return V3(x, y, z); }

VC(kdtri_node) { // box and centre of a triangle (one axis at a time)
  std::vector<V3> P(3); const unsigned ax = vc_choose(3); for (int i = 0; i < 3; ++i) { P[i] = V3(i, 2*i, -i); P[i].p[ax] = vc_real("x"); } std::vector<unsigned> T = {2, 0, 1}; const Node n(0, P, T); ENSURES_L("number", n.TriInd == 0); D u = 1, l = 1;
  for (int i = 0; i < 3; ++i) { ENSURES_GE_L("upper side", n.AABBmax[ax], P[i].p[ax]); ENSURES_GE_L("lower side", P[i].p[ax], n.AABBmin[ax]); u *= n.AABBmax[ax]-P[i].p[ax]; l *= P[i].p[ax]-n.AABBmin[ax]; } ENSURES_EQ_L("no higher than needed", u, 0); ENSURES_EQ_L("no lower than needed", l, 0); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("centre", 3*n.tricenter.p[k], P[0].p[k]+P[1].p[k]+P[2].p[k]); }
static Node node(int id) { const std::vector<V3> P(3, V3(0, 0, 0)); std::vector<unsigned> T(3*(unsigned)id+3); T[3*(unsigned)id] = 0; T[3*(unsigned)id+1] = 1; T[3*(unsigned)id+2] = 2; return Node(id, P, T); }
static void box_distance(bool between) { // bounds of the distance to the points of a box
  Node n = node(0); V3 Q; const unsigned ax = vc_choose(3); D near = 0, far = 0; for (int k = 0; k < 3; ++k) { const D lo = vc_real("lo"), w = vc_real("w"), x = vc_real("q"); REQUIRES(w >= 0); n.AABBmin[k] = lo; n.AABBmax[k] = lo+w; D f; // measured from the lower side, query beyond one of the sides or between
    switch (k == (int)ax ? 2*between+vc_choose(2) : (k+ax)%2*3) { case 0: REQUIRES(x < 0); near += x*x; f = x-w; break; case 1: REQUIRES(x > w); near += (x-w)*(x-w); f = x; break; case 2: REQUIRES(x >= 0); REQUIRES(x <= w); REQUIRES(2*x <= w); f = x-w; break; default: REQUIRES(x >= 0); REQUIRES(x <= w); REQUIRES(2*x > w); f = x; } far += f*f; Q.p[k] = lo+x; }
  const auto d = n.distance(Q); ENSURES_GE_L("distances are not negative", d.min, 0); ENSURES_GE_L("distances are not negative", d.max, 0); ENSURES_EQ_L("distance to the nearest point of the box", d.min*d.min, near); ENSURES_EQ_L("distance to the farthest point of the box", d.max*d.max, far); }
VC(kdtri_box_beyond) { box_distance(false); }
VC(kdtri_box_between) { box_distance(true); }

// one step of the search.  The nearest triangle is followed: its distance is vc_dist, its box is between vc_min and vc_max away.
struct Range { D max, min; };
static D vc_dist, vc_min, vc_max, vc_here_min, vc_here_max; static V3 vc_query; static unsigned vc_depth, vc_place; static const int vc_id = 7;
static bool has(const Cand &c) { for (const auto &i : c) if (i.index == vc_id) return true; return false; }
static bool has_here(const Cand &c) { for (const auto &i : c) if (i.index == 0) return true; return false; }
extern "C" Range stub_box(Node *, V3 q) { for (int k = 0; k < 3; ++k) ENSURES_EQ_L("same query", q.p[k], vc_query.p[k]); return Range{vc_here_max, vc_here_min}; }
extern "C" int rec_nearest(K *, const int cur, const V3 q, Cand &cand, D &dmax, D &dmin, unsigned depth) {
  ENSURES_L("recursion into a child", cur == 1 || cur == 2); ENSURES_L("one level deeper", depth == vc_depth+1); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("same query", q.p[k], vc_query.p[k]);
  const bool found = has(cand) || (vc_place == 0 && has_here(cand)); ENSURES_L("the nearest triangle is kept", found || vc_place == 1 || vc_place == 2);
  if (found) { ENSURES_GE_L("upper bound", dmax, vc_dist); ENSURES_GE_L("lower bound of the candidates", vc_min, dmin); } else ENSURES_L("upper bound", dmax > vc_dist);
  const D l0 = dmin; dmax = vc_real("max1"); dmin = vc_real("min1"); REQUIRES(dmin <= l0); cand.clear(); cand.push_back({9, vc_real("a"), vc_real("b")});
  if (found || (int)vc_place == cur) { cand.push_back({vc_place == 0 ? 0 : vc_id, vc_max, vc_min}); REQUIRES(dmax >= vc_dist); REQUIRES(dmin <= vc_min); } else REQUIRES(dmax > vc_dist);
  return 1; }
VC(kdtri_step) {
  vc_float_exact(); vc_depth = vc_choose(4); const unsigned m = vc_choose(4), ax = vc_depth%3; vc_place = vc_choose(4); if (vc_place == 1 || vc_place == 2) REQUIRES(m >> (vc_place-1) & 1); // 0: this node, 1: right child, 2: left child, 3: found before
  const std::vector<V3> P(3, V3(0, 0, 0)); K t(P, {0, 1, 2}); t.NodeList.push_back(node(1)); t.NodeList.push_back(node(2)); vc_query = point(); const V3 Q = vc_query; const D c = vc_real("centre"); t.NodeList[0].tricenter.p[ax] = c;
  vc_dist = vc_real("dist"); vc_min = vc_real("min"); vc_max = vc_real("max"); REQUIRES(vc_min >= 0); REQUIRES(vc_min <= vc_dist); REQUIRES(vc_dist <= vc_max); const D lo = vc_real("lo"), hi = vc_real("hi"); REQUIRES(lo <= hi); REQUIRES(Q.p[ax] - hi <= vc_min); REQUIRES(lo - Q.p[ax] <= vc_min); // extent of its box along the axis
  const float r = vc_realf("right"), l = vc_realf("left"); if (m & 1) { t.NodeList[0].rightchild = 1; t.NodeList[0].realboundright = r; if (vc_place == 1) REQUIRES(lo >= r); } if (m & 2) { t.NodeList[0].leftchild = 2; t.NodeList[0].realboundleft = l; if (vc_place == 2) REQUIRES(hi <= l); }
  if (vc_place == 0) { vc_here_min = vc_min; vc_here_max = vc_max; } else { vc_here_min = vc_real("hmin"); vc_here_max = vc_real("hmax"); const D d = vc_real("other"); REQUIRES(vc_here_min >= 0); REQUIRES(vc_here_min <= d); REQUIRES(d <= vc_here_max); REQUIRES(d > vc_dist); }
  Cand cand; if (vc_choose(2)) cand.push_back({8, vc_real("a"), vc_real("b")}); D dmax = vc_real("max0"), dmin = vc_real("min0"); if (vc_place == 3) { cand.push_back({vc_id, vc_max, vc_min}); REQUIRES(dmax >= vc_dist); REQUIRES(dmin <= vc_min); } else REQUIRES(dmax > vc_dist);
#ifdef VC_SYM
  const D l0 = dmin; t.SearchNearestRecursive(0, Q, cand, dmax, dmin, vc_depth); ENSURES_L("the nearest triangle is a candidate", has(cand) || (vc_place == 0 && has_here(cand))); ENSURES_GE_L("upper bound", dmax, vc_dist); ENSURES_GE_L("lower bound of the candidates", vc_min, dmin); ENSURES_GE_L("lower bound decreases", l0, dmin);
#endif
}
VC(kdtri_entry) { const std::vector<V3> P = {V3(0, 0, 0), V3(1, 0, 0), V3(0, 1, 0)}; K t(P, {0, 1, 2}); const V3 Q = point(); for (int k = 0; k < 3; ++k) REQUIRES(fabs(Q.p[k]) < 1e100); const auto r = t.SearchNearest(Q); ENSURES_L("the only triangle", r.size() == 1 && r[0] == 0); }
// construction: the median separates the triangles, the children get the bounds of their boxes
static std::vector<int> vc_left, vc_right; static int vc_b, vc_e;
extern "C" int rec_build(K *t, const int b, const int e, const int depth) { ENSURES_L("one level deeper", depth == (int)vc_depth+1); const int m = (vc_b+vc_e)/2; ENSURES_L("ranges left and right of the median", (b == vc_b && e == m) || (b == m+1 && e == vc_e)); for (int i = b; i < e; ++i) (b == vc_b ? vc_right : vc_left).push_back(t->NodeList[i].TriInd); return b + (e-b)/2; }
VC(kdtri_construct) {
  vc_float_exact(); vc_depth = vc_choose(4); const unsigned ax = vc_depth%3; const int n = 1 + (int)vc_choose(4); const std::vector<V3> P(3, V3(0, 0, 0)); K t(P, {0, 1, 2}); t.NodeList.clear(); vc_left.clear(); vc_right.clear();
  for (int i = 0; i < n; ++i) { t.NodeList.push_back(node(i)); t.NodeList[i].tricenter.p[ax] = vc_real("centre"); t.NodeList[i].AABBmin[ax] = vc_real("min"); t.NodeList[i].AABBmax[ax] = vc_real("max"); } const auto before = t.NodeList; vc_b = 0; vc_e = n;
#ifdef VC_SYM
  const int r = t.ConstructKDTree(0, n, (int)vc_depth); ENSURES_L("median", r == n/2); const Node &m = t.NodeList[r]; ENSURES_L("every other triangle is in one child", (int)(vc_left.size()+vc_right.size()) == n-1); ENSURES_L("children", n == 1 ? m.leftchild == -1 && m.rightchild == -1 : (m.rightchild >= 0) == !vc_right.empty() && (m.leftchild >= 0) == !vc_left.empty()); std::vector<int> seen(n, 0); seen[m.TriInd]++;
  D ul = 1, ur = 1; for (int i : vc_left) { seen[i]++; ENSURES_GE_L("lower side", m.tricenter.p[ax], before[i].tricenter.p[ax]); ENSURES_GE_L("upper bound of the boxes of the lower side", m.realboundleft, before[i].AABBmax[ax]); ul *= m.realboundleft-before[i].AABBmax[ax]; } for (int i : vc_right) { seen[i]++; ENSURES_GE_L("upper side", before[i].tricenter.p[ax], m.tricenter.p[ax]); ENSURES_GE_L("lower bound of the boxes of the upper side", before[i].AABBmin[ax], m.realboundright); ur *= m.realboundright-before[i].AABBmin[ax]; }
  if (!vc_left.empty()) ENSURES_EQ_L("no higher than needed", ul, 0); if (!vc_right.empty()) ENSURES_EQ_L("no lower than needed", ur, 0); for (int s : seen) ENSURES_L("every triangle once", s == 1); ENSURES_L("linked to its parent", (m.leftchild < 0 || t.NodeList[m.leftchild].parent == r) && (m.rightchild < 0 || t.NodeList[m.rightchild].parent == r));
#endif
}
