// dynamic triangle meshes: neighbour tables stay exact and every edit yields exactly the triangles it promises
// @opts: prune=0
// @opts_for: edit_twice max_steps=60000000
// @assume: patches are enumerated: discs and closed surfaces of up to twelve triangles, every triangle and edge of each, several numberings and corner rotations, sequences of two edits
#include <cassert>
#include <cmath>
#include <climits>
#include <vector>
#include <string>
#include <map>
#include <set>
#include <stack>
#include <algorithm>
#include "vc.h"
#include "vc_tree.h"
#include "delfem2/dtri_topology.h"
#include "dtri.h"
static bool flip(M &m, unsigned i, unsigned e) {
  const bool inner = m.t[i].s2[e] != NONE; const S w = tris(m); const unsigned a = m.t[i].v[e], b = m.t[i].v[(e+1)%3], c = m.t[i].v[(e+2)%3]; if (inner && edge(m, a, third(m, i, e))) return false; // REQUIRES: the new edge is not an edge yet
  const unsigned d = inner ? third(m, i, e) : 0, j = m.t[i].s2[e]; const bool r = d2::FlipEdge(i, e, m.p, m.t); ENSURES_L("flipped unless on the border", r == inner); valid(m); if (!inner) { same(m, w, "nothing changes"); return true; }
  S x = without(without(w, tri(a, b, c)), tri(b, d, c)); x.push_back(tri(a, b, d)); x.push_back(tri(a, d, c)); same(m, x, "the other diagonal"); ENSURES_L("documented places", m.t[i].v[0] == b && m.t[i].v[1] == d && m.t[i].v[2] == a && m.p[a].e == i && m.t[j].v[1] == a); return true; }
static void insert_face(M &m, unsigned i) { const S w = tris(m); const auto v = m.t[i]; const unsigned q = (unsigned)m.p.size(), n = (unsigned)m.t.size(); m.p.emplace_back(); ENSURES_L("accepted", d2::InsertPoint_Elem(q, i, m.p, m.t)); valid(m); ENSURES_L("two more triangles", m.t.size() == n+2);
  S x = without(w, tri(v.v[0], v.v[1], v.v[2])); for (unsigned k = 0; k < 3; ++k) x.push_back(tri(q, v.v[k], v.v[(k+1)%3])); same(m, x, "split into three"); }
static void insert_edge(M &m, unsigned i, unsigned e) { if (m.t[i].s2[e] == NONE) return; const S w = tris(m); const unsigned a = m.t[i].v[e], b = m.t[i].v[(e+1)%3], c = m.t[i].v[(e+2)%3], d = third(m, i, e), q = (unsigned)m.p.size(); m.p.emplace_back(); ENSURES_L("accepted", d2::InsertPoint_ElemEdge(q, i, e, m.p, m.t)); valid(m);
  S x = without(without(w, tri(a, b, c)), tri(b, d, c)); x.push_back(tri(a, b, q)); x.push_back(tri(a, q, c)); x.push_back(tri(d, q, b)); x.push_back(tri(d, c, q)); same(m, x, "both triangles split"); }
static void collapse(M &m, unsigned i, unsigned e) { if (m.t[i].s2[e] == NONE) return; const S w = tris(m); const unsigned b = m.t[i].v[(e+1)%3], c = m.t[i].v[(e+2)%3], a = m.t[i].v[e], d = third(m, i, e);
  unsigned common = 0; for (unsigned p = 0; p < m.p.size(); ++p) common += edge(m, p, b) && edge(m, p, c); const bool bb = border(m, b) || border(m, c);
  const bool r = d2::CollapseEdge_MeshDTri(i, e, m.p, m.t); valid(m); if (!r) { same(m, w, "refused: nothing changes"); ENSURES_L("an admissible collapse is not refused", bb || common > 2 || degree(w, a) < 4 || degree(w, d) < 4 || degree(w, b) < 4 || degree(w, c) < 4); return; }
  ENSURES_L("only admissible collapses", common == 2 && !bb); S x; for (unsigned y : w) { if (y == tri(a, b, c) || y == tri(b, d, c)) continue; const unsigned y0 = y/4096, y1 = y/64%64, y2 = y%64; x.push_back(tri(y0 == c ? b : y0, y1 == c ? b : y1, y2 == c ? b : y2)); } same(m, x, "the point is merged into the other end"); ENSURES_L("the point is isolated", m.p[c].e == NONE); }
static void op(M &m, unsigned o, unsigned i, unsigned e) { if (o == 0) flip(m, i, e); else if (o == 1) insert_face(m, i); else if (o == 2) insert_edge(m, i, e); else collapse(m, i, e); }
VC(initialize) { unsigned np; const unsigned k = vc_choose(NL); const U e = numbered(k, vc_choose(3), np); M m; m.p.resize(vc_choose(2)*9); m.t.resize(vc_choose(2)*2); d2::InitializeMesh(m.p, m.t, e.data(), e.size()/3, np); ENSURES_L("sizes", m.p.size() == np && m.t.size() == e.size()/3); for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned c = 0; c < 3; ++c) ENSURES_L("corners in order", m.t[i].v[c] == e[3*i+c]); valid(m); d2::AssertDTri(m.t); d2::AssertMeshDTri(m.p, m.t); }
VC(initialize_two_triangles) { // every consistently oriented pair
  U e = {0, 1, 2}; unsigned used = 3; for (unsigned c = 0; c < 3; ++c) { U o; for (unsigned p = 0; p <= used; ++p) if (c == 0 || (p != e[3] && (c == 1 || p != e[4]))) o.push_back(p); const unsigned p = o[vc_choose((unsigned)o.size())]; if (p == used) ++used; e.push_back(p); }
  for (unsigned a = 0; a < 3; ++a) for (unsigned b = 0; b < 3; ++b) if (e[a] == e[3+b] && e[(a+1)%3] == e[3+(b+1)%3]) return; if (e[3] < 3 && e[4] < 3 && e[5] < 3) return; M m; d2::InitializeMesh(m.p, m.t, e.data(), 2, used+1); valid(m); }
VC(edit_flip) { M m = build(vc_choose(NL), vc_choose(3)); const unsigned i = vc_choose((unsigned)m.t.size()); flip(m, i, vc_choose(3)); }
VC(edit_insert_face) { M m = build(vc_choose(NL), vc_choose(3)); insert_face(m, vc_choose((unsigned)m.t.size())); }
VC(edit_insert_edge) { M m = build(vc_choose(NL), vc_choose(3)); const unsigned i = vc_choose((unsigned)m.t.size()); insert_edge(m, i, vc_choose(3)); }
VC(edit_collapse_disc) { M m = build(1 + vc_choose(8), vc_choose(3)); const unsigned i = vc_choose((unsigned)m.t.size()); collapse(m, i, vc_choose(3)); }
VC(edit_collapse_closed) { M m = build(9 + vc_choose(4), vc_choose(3)); const unsigned i = vc_choose((unsigned)m.t.size()); collapse(m, i, vc_choose(3)); }
VC(edit_twice) { const unsigned l[4] = {3, 5, 9, 11}; M m = build(l[vc_choose(4)], 2); unsigned o = vc_choose(4); const unsigned i = (vc_choose(2)*5+1)%(unsigned)m.t.size(); op(m, o, i, o == 1 ? 0 : 2*vc_choose(2)); if (m.t.empty()) return; o = vc_choose(4); const unsigned j = (vc_choose(4)*3+o)%(unsigned)m.t.size(); op(m, o, j, (i+j+o)%3); }
VC(delete_triangle) { // an isolated triangle among others
  unsigned np; const U e = numbered(vc_choose(NL), vc_choose(3), np); U f; const unsigned n = (unsigned)e.size()/3, at = vc_choose(n+1); for (unsigned i = 0; i <= n; ++i) { if (i == at) { f.push_back(np); f.push_back(np+1); f.push_back(np+2); } if (i < n) for (unsigned c = 0; c < 3; ++c) f.push_back(e[3*i+c]); }
  M m; d2::InitializeMesh(m.p, m.t, f.data(), n+1, np+3); const S w = without(tris(m), tri(np, np+1, np+2)); ENSURES_L("accepted", d2::DeleteTri(at, m.p, m.t)); same(m, w, "exactly the others stay"); for (unsigned k = 0; k < 3; ++k) m.p[np+k].e = NONE; valid(m); const bool r = d2::DeleteTri(n+5, m.p, m.t); ENSURES_L("no such triangle: nothing to do", r && m.t.size() == n); }
VC(walk) { M m = build(vc_choose(NL), vc_choose(3)); if (vc_choose(2)) flip(m, (unsigned)m.t.size()/2, 1);
  for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned k = 0; k < 3; ++k) { for (unsigned d = 0; d < 2; ++d) { unsigned t = i, n = k; const unsigned ed = d ? (k+2)%3 : (k+1)%3; const bool r = d ? d2::MoveCW(t, n, NONE, m.t) : d2::MoveCCW(t, n, NONE, m.t); ENSURES_L("stops at the border only", r == (m.t[i].s2[ed] != NONE)); if (!r) { ENSURES_L("stays", t == i && n == k); continue; } ENSURES_L("the next triangle around the same point", t == m.t[i].s2[ed] && n < 3 && m.t[t].v[n] == m.t[i].v[k]); const unsigned next = d ? m.t[t].v[(n+2)%3] : m.t[t].v[(n+1)%3], last = d ? m.t[i].v[(k+1)%3] : m.t[i].v[(k+2)%3]; ENSURES_L("across the shared edge", next == last); unsigned t2 = i, n2 = k; ENSURES_L("stops at the given triangle", !(d ? d2::MoveCW(t2, n2, m.t[i].s2[ed], m.t) : d2::MoveCCW(t2, n2, m.t[i].s2[ed], m.t)) && t2 == i && n2 == k); }
    if (m.t[i].s2[k] != NONE) { const unsigned g = d2::FindAdjEdgeIndex(m.t[i], k, m.t), j = m.t[i].s2[k]; ENSURES_L("the same edge reversed", g < 3 && m.t[j].v[(g+1)%3] == m.t[i].v[(k+2)%3] && m.t[j].v[(g+2)%3] == m.t[i].v[(k+1)%3]); } } }
static unsigned halfedge(const M &m, unsigned a, unsigned b) { for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned k = 0; k < 3; ++k) if (m.t[i].v[k] == a && m.t[i].v[(k+1)%3] == b) return i; return NONE; }
VC(find_edges) { M m = build(vc_choose(NL), vc_choose(3)); if (vc_choose(2)) flip(m, (unsigned)m.t.size()/2, 1); const unsigned a = vc_choose((unsigned)m.p.size());
  for (unsigned b = 0; b < m.p.size(); ++b) { const unsigned w = halfedge(m, a, b); unsigned t = 77, i0 = 78, i1 = 79; d2::FindEdge_LookAllTriangles(t, i0, a, b, m.t); if (w == NONE) ENSURES_L("not found: unchanged", t == 77 && i0 == 78); else ENSURES_L("the triangle with this directed edge", t == w && i0 < 3 && m.t[t].v[i0] == a && m.t[t].v[(i0+1)%3] == b);
    if (m.p[a].e == NONE) continue; t = 5; const bool r = d2::FindEdge_LookAroundPoint(t, i0, i1, a, b, m.p, m.t); ENSURES_L("found if and only if a triangle has this directed edge", r == (w != NONE)); if (r) ENSURES_L("that triangle and its corners", t == w && i0 < 3 && i1 < 3 && m.t[t].v[i0] == a && m.t[t].v[i1] == b); }
  if (m.p[a].e == NONE) return; std::vector<std::pair<unsigned, unsigned>> r; if (!border(m, a)) { d2::GetTriArrayAroundPoint(r, a, m.p, m.t); const unsigned n = degree(tris(m), a); ENSURES_L("every triangle around the point", r.size() == n); for (unsigned k = 0; k < r.size(); ++k) { ENSURES_L("at its corner", r[k].first < m.t.size() && r[k].second < 3 && m.t[r[k].first].v[r[k].second] == a); for (unsigned l = 0; l < k; ++l) ENSURES_L("once", r[l].first != r[k].first); const auto &x = r[(k+1)%r.size()]; ENSURES_L("counter-clockwise", m.t[x.first].v[(x.second+1)%3] == m.t[r[k].first].v[(r[k].second+2)%3]); }
    U q = {3}; ENSURES_L("inner point", d2::FindPointAroundPoint(q, a, m.p, m.t)); ENSURES_L("as many points as triangles", q.size() == n); for (unsigned k = 0; k < n; ++k) { ENSURES_L("the ring, counter-clockwise", find(tris(m), tri(a, q[k], q[(k+1)%n])) == 1); for (unsigned l = 0; l < k; ++l) ENSURES_L("each once", q[l] != q[k]); } } }
VC(rows) { unsigned np; const U e = numbered(vc_choose(NL), vc_choose(3), np); M m; d2::InitializeMesh(m.p, m.t, e.data(), e.size()/3, np); I ei = {4}, ea = {5, 5}; ENSURES_L("accepted", d2::JArray_MakeElSuP(ei, ea, m.t, np)); ENSURES_L("one row per point", ei.size() == np+1 && ei[0] == 0 && ei[np] == (int)ea.size() && ea.size() == e.size());
  for (unsigned p = 0; p < np; ++p) { int k = ei[p]; for (unsigned i = 0; i < m.t.size(); ++i) if (m.t[i].v[0] == p || m.t[i].v[1] == p || m.t[i].v[2] == p) { ENSURES_L("triangles around the point in order", k < ei[p+1] && ea[(unsigned)k] == (int)i); ++k; } ENSURES_L("no other", k == ei[p+1]); }
  I pi = {3}, pa = {9}; d2::JArray_PSuP(pi, pa, m.t, np, ei, ea); ENSURES_L("one row per point", pi.size() == np+1 && pi[0] == 0 && pi[np] == (int)pa.size()); for (unsigned p = 0; p < np; ++p) for (unsigned q = 0; q < np; ++q) { unsigned n = 0; for (int k = pi[p]; k < pi[p+1]; ++k) n += pa[(unsigned)k] == (int)q; ENSURES_L("each neighbouring point once", n == (p != q && edge(m, p, q) ? 1u : 0u)); } }
VC(holes) { // an open mesh: each border loop, in order
  const U l[5] = { listed(3), listed(7), {0,1,3, 1,4,3, 1,2,4, 2,5,4, 2,0,5, 0,3,5}, {0,1,2, 3,4,5, 4,6,5}, {0,1,2, 0,3,1, 1,3,2, 2,3,0} }; U e = l[vc_choose(5)]; unsigned np = 0; for (unsigned p : e) if (p >= np) np = p+1; np += 1; if (vc_choose(2)) for (unsigned &p : e) p = np-1-p; M m; d2::InitializeMesh(m.p, m.t, e.data(), e.size()/3, np);
  std::vector<I> h(2); d2::extractHoles(h, (int)np, m.t); U next(np, NONE); unsigned nb = 0; const H e1 = edges_of(m); for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned k = 0; k < 3; ++k) if (e1(m.t[i].v[(k+2)%3], m.t[i].v[(k+1)%3]) == NONE) { next[m.t[i].v[(k+1)%3]] = m.t[i].v[(k+2)%3]; ++nb; }
  unsigned n = 0; for (const I &x : h) { n += (unsigned)x.size(); ENSURES_L("a loop", x.size() > 2); for (unsigned k = 0; k < x.size(); ++k) ENSURES_L("along the border", x[k] >= 0 && next[(unsigned)x[k]] == (unsigned)x[(k+1)%x.size()]); } ENSURES_L("every border point once", n == nb); U seen(np, 0); for (const I &x : h) for (int p : x) { ENSURES_L("once", !seen[(unsigned)p]); seen[(unsigned)p] = 1; } }
