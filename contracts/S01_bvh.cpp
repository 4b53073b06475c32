// S01: bounding volume hierarchies: topology, geometry, queries.
// @flags: -DDFM2_STATIC_LIBRARY
// @opts_for: top_down_step prune=1
// @stub: build_box,build_sphere /BVH_BuildBVHGeometry/ rec_build
// @stub: query_predicate /BVH_GetIndElem_Predicate/ rec_predicate
// @stub: query_nearest /BVH_IndPoint_NearestPoint/ rec_nearest
// @stub: query_range /BVH_Range_DistToNearestPoint/ rec_range
// @stub: top_down_step /DevideElemAryConnex/ rec_divide
#include <cassert>
#include <cmath>
#include <climits>
#include <cstdint>
#include <array>
#include <limits>
#include <vector>
#include <stack>
#include <algorithm>
#include "vc.h"
#include "delfem2/srch_bvh.h"
#include "delfem2/srch_bv3_aabb.h"
#include "delfem2/srch_bv3_sphere.h"
#include "delfem2/srch_bvh.cpp"
namespace d2 = delfem2;
using D = double; using U = std::vector<unsigned>; using V = std::vector<D>; using N = std::vector<d2::CNodeBVH2>; using B = d2::CBV3_AABB<D>; using S = d2::CBV3_Sphere<D>;

// --- trees: every node is reached once from the root, parents agree, every object is in one leaf
static void leaves(const N &t, unsigned i, unsigned parent, std::vector<int> &seen, U &order) {
  ENSURES_L("node of the tree", i < t.size()); if (i >= t.size()) return; ENSURES_L("every node is reached once", seen[i]++ == 0); if (seen[i] > 1) return; ENSURES_L("parent", t[i].iparent == parent);
  if (t[i].ichild[1] == UINT_MAX) { order.push_back(t[i].ichild[0]); return; } leaves(t, t[i].ichild[0], i, seen, order); leaves(t, t[i].ichild[1], i, seen, order); }
static U well_formed(const N &t, unsigned n) { ENSURES_L("one node less than twice the objects", t.size() == 2*n-1); std::vector<int> seen(t.size(), 0), obj(n, 0); U order; leaves(t, 0, UINT_MAX, seen, order); for (int s : seen) ENSURES_L("no node is left over", s == 1); ENSURES_L("one leaf per object", order.size() == n); for (unsigned o : order) { ENSURES_L("an object", o < n); if (o < n) ++obj[o]; } for (int o : obj) ENSURES_L("every object once", o == 1); d2::Check_BVH(t, n); return order; }

// --- Morton codes.  The tree depends on the codes only through the order of the lengths of their common prefixes,
// that is on the shape of the prefix tree: all shapes are enumerated, with runs of equal codes.
static void shape(std::vector<uint32_t> &c, unsigned n, uint32_t prefix, int bit) {
  if (n == 1) { c.push_back(prefix); return; } const unsigned k = vc_choose(n); if (k == 0) { for (unsigned i = 0; i < n; ++i) c.push_back(prefix); return; } shape(c, k, prefix, bit-3); shape(c, n-k, prefix | 1u << bit, bit-2); }
static unsigned common(uint32_t a, uint32_t b) { unsigned n = 0; while (n < 32 && !((a ^ b) >> (31-n) & 1)) ++n; return n; }
static unsigned span(const N &t, unsigned i, unsigned &last, const U &rank) { if (t[i].ichild[1] == UINT_MAX) return last = rank[t[i].ichild[0]]; unsigned m; const unsigned a = span(t, t[i].ichild[0], m, rank), b = span(t, t[i].ichild[1], last, rank); ENSURES_L("children are adjacent ranges", m+1 == b); return a; }
static void morton(unsigned n, int top) {
  std::vector<uint32_t> c; shape(c, n, 0, top); U ind(n), rank(n); for (unsigned i = 0; i < n; ++i) ind[i] = n-1-i; for (unsigned i = 0; i < n; ++i) rank[ind[i]] = i; N t; d2::BVHTopology_Morton(t, ind, c); const U order = well_formed(t, n); for (unsigned i = 0; i < n; ++i) ENSURES_L("leaves in the order of the codes", order[i] == ind[i]); d2::Check_MortonCode_RangeSplit(c);
  for (unsigned i = 0; i < t.size(); ++i) if (t[i].ichild[1] != UINT_MAX) { unsigned e; const unsigned b = span(t, i, e, rank); if (c[b] == c[e]) continue; unsigned m; span(t, t[i].ichild[0], m, rank); const unsigned p = common(c[b], c[e]); ENSURES_L("split at the first bit that differs", common(c[b], c[m]) > p && common(c[m+1], c[e]) > p); } }
VC(morton_tree) { morton(1 + vc_choose(5), 29); }
VC(morton_tree6) { morton(6, 31); }
VC(morton_tree7) { morton(7, 30); }
VC(leading_zeros) { ENSURES_L("zero", d2::nbits_leading_zero(0) == 32); for (unsigned b = 0; b < 32; ++b) { const uint32_t t = 1u << b, m = t-1; for (const uint32_t x : {t, t | m, t | (m & 0x55555555u), t | (m & 0xaaaaaaaau), t | (m & 1u)}) ENSURES_L("number of leading zeros", d2::nbits_leading_zero(x) == 31-b); } }
static uint32_t spread(uint32_t v) { uint32_t r = 0; for (unsigned b = 0; b < 10; ++b) r |= (v >> b & 1u) << 3*b; return r; }
VC(expand_bits) { for (uint32_t v = 0; v < 1024; ++v) ENSURES_L("two zeros before each bit", d2::bvh::expandBits(v) == spread(v)); }
VC(morton_code) { // cell of the grid of 1024 cells per axis, points outside belong to the first or last cell
  const unsigned q = vc_choose(256); const uint32_t k[3] = {4*q + q%4, (q*37 + 11)%1024, 1023 - 4*q}; D x[3]; for (int i = 0; i < 3; ++i) { x[i] = vc_real("x"); if (k[i] > 0) REQUIRES(x[i]*1024 >= k[i]); else REQUIRES(x[i]*1024 >= -64); if (k[i] < 1023) REQUIRES(x[i]*1024 < k[i]+1.0); else REQUIRES(x[i]*1024 <= 1087); }
  ENSURES_L("bits of the cell numbers are interleaved", d2::MortonCode(x[0], x[1], x[2]) == (spread(k[0]) << 2 | spread(k[1]) << 1 | spread(k[2]))); }
VC(sorted_codes) { const unsigned n = 1 + vc_choose(3); D lo[3], hi[3]; V X; std::vector<uint32_t> code; const uint32_t cells[4] = {0, 300, 301, 1023}; for (int k = 0; k < 3; ++k) { lo[k] = vc_real("lo"); const D w = vc_real("w"); REQUIRES(w > 0); hi[k] = lo[k]+w; }
  for (unsigned i = 0; i < n; ++i) { const uint32_t c = cells[vc_choose(4)], k[3] = {c, i == 0 ? 300u : 301u, i == 1 ? 1023u : 0u}; for (int a = 0; a < 3; ++a) { const D t = vc_real("t"); REQUIRES(t*1024 >= k[a]); REQUIRES(t*1024 < k[a]+1.0); X.push_back(lo[a]+t*(hi[a]-lo[a])); } code.push_back(spread(k[0]) << 2 | spread(k[1]) << 1 | spread(k[2])); }
  U ind; std::vector<uint32_t> mc; d2::SortedMortenCode_Points3(ind, mc, X, lo, hi); ENSURES_L("one code per point", ind.size() == n && mc.size() == n); std::vector<int> seen(n, 0); for (unsigned i = 0; i < n; ++i) { ENSURES_L("a point", ind[i] < n); ++seen[ind[i]]; ENSURES_L("code of the point", mc[i] == code[ind[i]]); if (i > 0) ENSURES_L("ascending", mc[i-1] <= mc[i]); } for (int s : seen) ENSURES_L("every point once", s == 1); d2::Check_MortonCode_Sort(ind, mc, X, lo, hi); }

// --- top-down construction over a mesh
static void neighbours(U &s, unsigned n, unsigned mask) { s.assign(n*3, UINT_MAX); U c(n, 0); unsigned b = 0; for (unsigned i = 0; i < n; ++i) for (unsigned j = i+1; j < n; ++j, ++b) if (mask >> b & 1) { s[i*3+c[i]++] = j; s[j*3+c[j]++] = i; } }
static void top_down(unsigned n, unsigned mask, const V &c) { U s; neighbours(s, n, mask); N t(3); d2::BVHTopology_TopDown_MeshElem(t, 3, s, c); well_formed(t, n); }
VC(top_down_one) { V c(3); vc_reals(c.data(), 3, "c"); top_down(1, 0, c); }
VC(top_down_grid) { // any arrangement on the corners of a cube, coincident ones included
  const unsigned n = 2 + vc_choose(2); V c; for (unsigned i = 0; i < n; ++i) { const unsigned k = i == 0 ? 0 : vc_choose(8); for (int a = 0; a < 3; ++a) c.push_back(k >> a & 1); } top_down(n, vc_choose(n == 2 ? 2 : 8), c); }
VC(top_down_square) { // centres of the triangles of squares and other planar arrangements
  const unsigned n = 4, m[5] = {0, 63, 0x29 /* chain */, 0x2d /* ring */, 0x07 /* star */}; V c; const unsigned ax = vc_choose(3); for (unsigned i = 0; i < n; ++i) { const unsigned k = i == 0 ? 0 : vc_choose(4); const D x[4] = {0, 1, 1, 0}, y[4] = {0, 0, 1, 1}; D p[3] = {0, 0, 0}; p[ax] = x[k]; p[(ax+1)%3] = y[k]; c.insert(c.end(), p, p+3); } top_down(n, m[vc_choose(5)], c); }
static unsigned vc_calls; static N *vc_tree; static U vc_lists[2];
extern "C" void rec_divide(unsigned root, U &e2n, N &t, const U &list, const int nf, const U &, const V &) { const unsigned k = root == t[1].ichild[0] ? 0 : 1; ENSURES_L("a child", root == t[1].ichild[k] && t[root].iparent == 1); ENSURES_L("more than one element", list.size() > 1 && nf == 3); for (unsigned i : list) ENSURES_L("elements are marked", e2n[i] == root); ENSURES_L("each child once", vc_lists[k].empty()); vc_lists[k] = list; }
VC(top_down_step) { // one division of elements at any place along an axis
  const unsigned n = 2 + vc_choose(2), mask = vc_choose(n == 2 ? 2 : 8), ax = n == 2 ? vc_choose(3) : mask%3, o = vc_choose(n == 2 ? 2 : 6); V c(3*n, 0.5); c[0] = c[1] = c[2] = 0.5; for (unsigned i = 0; i < n; ++i) c[3*i+ax] = vc_real("c"); const unsigned perm[6][3] = {{0,1,2},{1,0,2},{2,0,1},{0,2,1},{1,2,0},{2,1,0}}; for (unsigned i = 0; i+1 < n; ++i) REQUIRES(c[3*perm[o][i]+ax] <= c[3*perm[o][i+1]+ax]); REQUIRES(c[3*perm[o][n-1]+ax]-c[3*perm[o][0]+ax] > 1e-6); U nb; neighbours(nb, n, mask); U e2n(n, 1), list; for (unsigned i = 0; i < n; ++i) list.push_back((i+1)%n); N t(2); t[1].iparent = 0; vc_lists[0].clear(); vc_lists[1].clear();
  d2::bvh::DevideElemAryConnex(1, e2n, t, list, 3, nb, c);
#ifdef VC_SYM
  ENSURES_L("two new nodes", t.size() == 4 && t[1].ichild[0] == 2 && t[1].ichild[1] == 3 && t[2].iparent == 1 && t[3].iparent == 1 && t[1].iparent == 0); std::vector<int> seen(n, 0); for (unsigned k = 0; k < 2; ++k) { if (vc_lists[k].empty()) { ENSURES_L("a leaf", t[2+k].ichild[1] == UINT_MAX && t[2+k].ichild[0] < n); vc_lists[k].push_back(t[2+k].ichild[0]); } for (unsigned i : vc_lists[k]) { ++seen[i]; ENSURES_L("marked", e2n[i] == 2+k); } } for (int x : seen) ENSURES_L("every element in one child", x == 1);
#endif
}

// --- geometry.  Induction over the tree: the recursive call stands for a child of any size; one point of each child is followed.
struct NoLeaf {};
static N tree(bool leaf) { N t(8); t[3].iparent = 1; t[3].ichild[0] = leaf ? 5 : 6; t[3].ichild[1] = leaf ? UINT_MAX : 2; t[6].iparent = t[2].iparent = 3; t[6].ichild[0] = 0; t[6].ichild[1] = UINT_MAX; t[2].ichild[0] = 4; t[2].ichild[1] = UINT_MAX; return t; }
static D vc_pt[2][3]; static unsigned vc_done;
template<class BB> struct Leaf { void SetVolume(BB &b, unsigned id) const { const unsigned k = id == 0 ? 0 : 1; b.Set_Inactive(); b.AddPoint(vc_pt[k], 0.0); } }; // native runs
static void inside(const B &b, const D *p) { ENSURES_L("active", b.IsActive()); for (int k = 0; k < 3; ++k) { ENSURES_GE_L("lower side", p[k], b.bbmin[k]); ENSURES_GE_L("upper side", b.bbmax[k], p[k]); } }
VC(build_box) {
  const N t = tree(false); std::vector<B> bb; vc_done = 0; for (auto &p : vc_pt) HAVOC(p); d2::BVH_BuildBVHGeometry(bb, 3, t, Leaf<B>()); ENSURES_L("one volume per node", bb.size() == t.size());
#ifdef VC_SYM
  ENSURES_L("both children are built", vc_done == 3);
#endif
  for (const auto &p : vc_pt) inside(bb[3], p); for (unsigned k : {6u, 2u}) ENSURES_L("contains the volume of the child", bb[3].IsInclude_AABB3(bb[k])); }
extern "C" void rec_build(std::vector<B> &bb, unsigned i, const N &, const Leaf<B> &) { const unsigned k = i == 6 ? 0 : 1; ENSURES_L("recursion into a child", i == 6 || i == 2); vc_done |= 1u << k; for (int a = 0; a < 3; ++a) { bb[i].bbmin[a] = vc_real("min"); bb[i].bbmax[a] = vc_real("max"); REQUIRES(bb[i].bbmin[a] <= vc_pt[k][a]); REQUIRES(vc_pt[k][a] <= bb[i].bbmax[a]); } }
// leaves
static B any_box() { B b; for (int k = 0; k < 3; ++k) { b.bbmin[k] = vc_real("oldmin"); b.bbmax[k] = vc_real("oldmax"); REQUIRES(b.bbmin[k] <= b.bbmax[k]); } return b; }
static void tight(const B &b, const std::vector<std::array<D, 3>> &p, D e) { for (int k = 0; k < 3; ++k) { D l = 1, u = 1; for (const auto &x : p) { ENSURES_GE_L("lower side", x[k]-e, b.bbmin[k]); ENSURES_GE_L("upper side", b.bbmax[k], x[k]+e); l *= b.bbmin[k]-(x[k]-e); u *= b.bbmax[k]-(x[k]+e); } ENSURES_EQ_L("no lower than needed", l, 0); ENSURES_EQ_L("no higher than needed", u, 0); } }
static std::vector<std::array<D, 3>> along(const D *X, const unsigned *v, unsigned n) { std::vector<std::array<D, 3>> p; for (unsigned i = 0; i < n; ++i) p.push_back({X[3*v[i]], X[3*v[i]+1], X[3*v[i]+2]}); return p; }
VC(leaf_mesh) { const unsigned nn = 1 + vc_choose(4), ax = vc_choose(3); D X[15]; for (int i = 0; i < 15; ++i) X[i] = i%4; for (unsigned i = 0; i < 5; ++i) X[3*i+ax] = vc_real("x"); const unsigned E[8] = {4, 2, 0, 3, 1, 3, 2, 4}; const D m = vc_real("margin"); REQUIRES(m >= 0); d2::CLeafVolumeMaker_Mesh<B, D> mk(m, X, 5, E, 8/nn, nn); B b = any_box(); const unsigned e = 8/nn > 1 ? vc_choose(2) : 0; mk.SetVolume(b, e); tight(b, along(X, E+e*nn, nn), m); }
VC(leaf_point) { D X[9]; HAVOC(X); d2::CLeafVolumeMaker_Point<B, D> mk(X, 3); B b = any_box(); const unsigned i = vc_choose(3); mk.SetVolume(b, i); for (int k = 0; k < 3; ++k) { ENSURES_EQ_L("the point", b.bbmin[k], X[3*i+k]); ENSURES_EQ_L("the point", b.bbmax[k], X[3*i+k]); } d2::CLeafVolumeMaker_Point<S, D> ms(X, 3); S s; s.r = vc_real("oldr"); REQUIRES(s.r >= 0); for (D &c : s.c) c = vc_real("oldc"); ms.SetVolume(s, i); ENSURES_EQ_L("no radius", s.r, 0); for (int k = 0; k < 3; ++k) ENSURES_EQ_L("the point", s.c[k], X[3*i+k]); }
struct Rec { std::vector<std::array<D, 4>> log; void Set_Inactive() { log.clear(); } void AddPoint(const D *p, D e) { log.push_back({p[0], p[1], p[2], e}); } };
VC(leaf_moving) { V X(12), W(12); vc_reals(X.data(), 12, "x"); vc_reals(W.data(), 12, "v"); const U T = {0, 1, 2, 3, 0, 2}; const D dt = vc_real("dt"), e = vc_real("eps"); d2::CLeafVolumeMaker_DynamicTriangle<Rec, D> mk(dt, X, W, T, e); Rec b; b.log.push_back({9, 9, 9, 9}); const unsigned it = vc_choose(2); mk.SetVolume(b, it); ENSURES_L("the three corners at both times", b.log.size() == 6);
  for (unsigned i = 0; i < 6; ++i) { const unsigned v = T[3*it+i%3]; D prod = 1; for (const auto &l : b.log) { D s = (l[3]-e)*(l[3]-e); for (int k = 0; k < 3; ++k) { const D d = l[k]-(X[3*v+k]+(i < 3 ? 0 : dt)*W[3*v+k]); s += d*d; } prod *= s; } ENSURES_EQ_L(i < 3 ? "corner at the start" : "corner at the end", prod, 0); } }

// --- queries.  A volume here is what the query can see of it.
struct Vol { D lo = 1, hi = -1; bool yes = false; void Range_DistToPoint(D &a, D &b, D, D, D) const { if (hi < lo) return; a = lo; b = hi; } };
struct Pred { int tag; bool IsTrue(unsigned i, const std::vector<Vol> &b) { return b[i].yes; } };
static U vc_found[2];
extern "C" void rec_predicate(U &out, Pred p, unsigned i, const N &, const std::vector<Vol> &) { const unsigned k = i == 6 ? 0 : 1; ENSURES_L("recursion into a child", i == 6 || i == 2); ENSURES_L("same predicate", p.tag == 77); vc_found[k].assign(vc_choose(3), 10+k); for (unsigned f : vc_found[k]) out.push_back(f); vc_done |= 1u << k; }
VC(query_predicate) { const bool leaf = vc_choose(2); const N t = tree(leaf); std::vector<Vol> b(8); b[3].yes = vc_choose(2); b[6].yes = b[2].yes = true; U out(vc_choose(2), 5); U e = out; vc_done = 0; d2::BVH_GetIndElem_Predicate(out, Pred{77}, 3, t, b);
  if (b[3].yes) {
#ifdef VC_SYM
    if (leaf) { e.push_back(5); } else { ENSURES_L("both children are searched", vc_done == 3); for (auto &f : vc_found) e.insert(e.end(), f.begin(), f.end()); }
#else
    if (leaf) e.push_back(5); else { e.push_back(0); e.push_back(4); }
#endif
  } std::sort(out.begin(), out.end()); std::sort(e.begin(), e.end()); bool same = out.size() == e.size(); for (unsigned i = 0; same && i < e.size(); ++i) same = out[i] == e[i]; ENSURES_L("what is found in the children of a volume that satisfies the predicate, nothing else", same); }
VC(query_predicates) { // the predicates ask the volume
  std::vector<S> s(3); for (S &v : s) { v.r = vc_real("r"); REQUIRES(v.r >= 0); for (D &c : v.c) c = vc_real("c"); } const unsigned i = vc_choose(3); D p[3], d[3]; HAVOC(p); HAVOC(d); REQUIRES_POS(d[0]*d[0]+d[1]*d[1]+d[2]*d[2], 1e-3); switch (vc_choose(4)) { case 0: { d2::CIsBV_IncludePoint<S> q(p); ENSURES_L("point", q.IsTrue(i, s) == s[i].isInclude_Point(p[0], p[1], p[2])); break; } case 1: { d2::CIsBV_IntersectLine<S, D> q(p, d); ENSURES_L("line", q.IsTrue(i, s) == s[i].IsIntersectLine(p, d)); break; } case 2: { d2::CIsBV_IntersectRay<S> q(p, d); ENSURES_L("ray", q.IsTrue(i, s) == s[i].IsIntersectRay(p, d)); break; }
    default: { const D lo = vc_real("lo"), hi = vc_real("hi"); REQUIRES(lo <= hi); d2::CIsBV_InsideRange<S> q(p, lo, hi); D a = 0, b = 0; s[i].Range_DistToPoint(a, b, p[0], p[1], p[2]); const bool meet = vc_choose(2); if (meet) { REQUIRES(b >= lo); REQUIRES(a <= hi); } else if (vc_choose(2)) REQUIRES(b < lo); else REQUIRES(a > hi); ENSURES_L("range", q.IsTrue(i, s) == meet); } } }
// nearest point: a point of each child is followed (its distance vc_d), each child reports another one
static D vc_d[2], vc_r[2]; static bool vc_act[2];
extern "C" void rec_nearest(unsigned &ip, D &cur, const D *p, unsigned i, const N &, const std::vector<Vol> &) { const unsigned k = i == 6 ? 0 : 1; ENSURES_L("recursion into a child", i == 6 || i == 2); for (int a = 0; a < 3; ++a) ENSURES_EQ_L("same query", p[a], a+1.0); vc_done |= 1u << k;
  if (!vc_act[k]) return; if (vc_choose(2)) { REQUIRES(cur >= 0); REQUIRES(cur <= vc_d[k]); return; } if (cur >= 0) REQUIRES(vc_r[k] <= cur); REQUIRES(vc_r[k] <= vc_d[k]); cur = vc_r[k]; ip = 20+k; }
VC(query_nearest) { const unsigned m = vc_choose(4); const bool leaf = m == 3; const N t = tree(leaf); std::vector<Vol> b(8); D cur = vc_real("cur"); unsigned ip = 99; const D c0 = cur, q[3] = {1, 2, 3}; vc_done = 0;
  b[3].lo = vc_real("lo"); b[3].hi = leaf ? b[3].lo : vc_real("hi"); REQUIRES(b[3].lo >= 0); REQUIRES(b[3].lo <= b[3].hi); for (int k = 0; k < 2; ++k) { vc_act[k] = leaf || k == 0 || m >= 1; vc_d[k] = vc_real("d"); vc_r[k] = vc_real("r"); REQUIRES(vc_d[k] >= b[3].lo); REQUIRES(vc_d[k] <= b[3].hi); REQUIRES(vc_r[k] >= b[3].lo); REQUIRES(vc_r[k] <= b[3].hi); }
#ifndef VC_SYM
  for (int k = 0; k < 2; ++k) { Vol &v = b[k == 0 ? 6 : 2]; if (vc_act[k]) v.lo = v.hi = vc_r[k] = vc_d[k]; }
#endif
  d2::BVH_IndPoint_NearestPoint<Vol, D>(ip, cur, q, 3, t, b);
  if (leaf) { ENSURES_GE_L("not farther than the point", b[3].lo, cur); if (ip == 5) { ENSURES_EQ_L("distance of the point", cur, b[3].lo); } else { ENSURES_L("unchanged index", ip == 99); ENSURES_EQ_L("unchanged distance", cur, c0); } ENSURES_L("a distance", cur >= 0); }
  else { for (int k = 0; k < 2; ++k) if (vc_act[k]) ENSURES_GE_L("not farther than any point of the tree", vc_d[k], cur); ENSURES_L("a distance", cur >= 0); if (ip == 99) { ENSURES_EQ_L("unchanged distance", cur, c0); } else { const bool ok = (ip == 20 || ip == 21 || ip == 0 || ip == 4); ENSURES_L("a point of the tree", ok); if (ok) ENSURES_EQ_L("distance of the point", cur, vc_r[ip == 20 || ip == 0 ? 0 : 1]); } } }
VC(query_nearest_inactive) { const N t = tree(vc_choose(2)); std::vector<Vol> b(8); D cur = vc_real("cur"), c0 = cur; unsigned ip = 99; const D q[3] = {1, 2, 3}; d2::BVH_IndPoint_NearestPoint<Vol, D>(ip, cur, q, 3, t, b); ENSURES_L("nothing", ip == 99); ENSURES_EQ(cur, c0); D lo = vc_real("lo"), hi = vc_real("hi"); const D l0 = lo, h0 = hi; d2::BVH_Range_DistToNearestPoint(lo, hi, q, 3, t, b); ENSURES_EQ(lo, l0); ENSURES_EQ(hi, h0); }
// range of the distance to the nearest object: a leaf of each child is followed, with the range [vc_lo, vc_hi] of its distance
static D vc_lo[2], vc_hi[2];
extern "C" void rec_range(D &lo, D &hi, const D *p, unsigned i, const N &, const std::vector<Vol> &) { const unsigned k = i == 6 ? 0 : 1; ENSURES_L("recursion into a child", i == 6 || i == 2); for (int a = 0; a < 3; ++a) ENSURES_EQ_L("same query", p[a], a+1.0);
  const bool valid = lo <= hi; const D l0 = lo, h0 = hi; lo = vc_real("lo1"); hi = vc_real("hi1"); REQUIRES(lo <= hi); REQUIRES(lo >= 0); REQUIRES(lo <= vc_lo[k]); REQUIRES(hi <= vc_hi[k]); if (valid) { REQUIRES(lo <= l0); REQUIRES(hi <= h0); } }
VC(query_range) { const bool leaf = vc_choose(2), valid = vc_choose(2); const N t = tree(leaf); std::vector<Vol> b(8); D lo = vc_real("min"), hi = vc_real("max"); if (valid) { REQUIRES(lo >= 0); REQUIRES(lo <= hi); } else REQUIRES(lo > hi); const D l0 = lo, h0 = hi, q[3] = {1, 2, 3};
  b[3].lo = vc_real("lo"); b[3].hi = vc_real("hi"); REQUIRES(b[3].lo >= 0); REQUIRES(b[3].lo <= b[3].hi); for (int k = 0; k < 2; ++k) { vc_lo[k] = vc_real("l"); vc_hi[k] = vc_real("h"); REQUIRES(vc_lo[k] <= vc_hi[k]); REQUIRES(vc_lo[k] >= b[3].lo); REQUIRES(vc_hi[k] <= b[3].hi); }
#ifndef VC_SYM
  for (int k = 0; k < 2; ++k) { Vol &v = b[k == 0 ? 6 : 2]; v.lo = vc_lo[k]; v.hi = vc_hi[k]; }
#endif
  d2::BVH_Range_DistToNearestPoint(lo, hi, q, 3, t, b); ENSURES_GE_L("a range", hi, lo); ENSURES_GE_L("not negative", lo, 0); if (valid) { ENSURES_GE_L("lower end does not grow", l0, lo); ENSURES_GE_L("upper end does not grow", h0, hi); }
  if (leaf) { ENSURES_GE_L("lower bound of the object", b[3].lo, lo); ENSURES_GE_L("upper bound of the object", b[3].hi, hi); if (valid) { ENSURES_EQ_L("one of the lower ends", (lo-l0)*(lo-b[3].lo), 0); ENSURES_EQ_L("one of the upper ends", (hi-h0)*(hi-b[3].hi), 0); } else { ENSURES_EQ(lo, b[3].lo); ENSURES_EQ(hi, b[3].hi); } }
  else for (int k = 0; k < 2; ++k) { ENSURES_GE_L("lower bound of every object", vc_lo[k], lo); ENSURES_GE_L("upper bound of every object", vc_hi[k], hi); } }
