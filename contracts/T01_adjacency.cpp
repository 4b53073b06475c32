// adjacency of meshes: elements around points, points around points, edges, neighbours, groups, jagged arrays
// @opts: prune=0
// @assume: connectivities are enumerated: up to four elements of two to eight corners (every way two triangles or two edges meet, canonical up to the names of the points, several numberings and unused points)
#include <cassert>
#include <cmath>
#include <climits>
#include <vector>
#include <set>
#include <string>
#include <array>
#include "vc.h"
#include "vc_tree.h"
#include "delfem2/jagarray.h"
#include "delfem2/msh_topology_uniform.h"
#include "delfem2/msh_topology_mix.h"
namespace d2 = delfem2;
typedef double D; typedef std::vector<unsigned int> U; typedef std::vector<int> I;
#define N(t) ((unsigned)d2::nNodeElem(t))
struct Mesh { d2::MESHELEM_TYPE t; unsigned nn, ne, np; U e; };
static bool has(const Mesh &m, unsigned ie, unsigned p) { for (unsigned k = 0; k < m.nn; ++k) if (m.e[ie*m.nn+k] == p) return true; return false; }
// next corner of a canonical connectivity: one of the points used before (not in this element) or the next new one
static unsigned corner(const Mesh &m, unsigned &used, unsigned first) { U c; for (unsigned p = 0; p <= used; ++p) { bool in = false; for (unsigned k = first; k < m.e.size(); ++k) in = in || m.e[k] == p; if (!in) c.push_back(p); } const unsigned p = c[vc_choose((unsigned)c.size())]; if (p == used) ++used; return p; }
static void number(Mesh &m, unsigned used) { const unsigned k = vc_choose(3); m.np = used + (k == 2 ? 2 : 0); for (unsigned &p : m.e) p = k == 0 ? p : k == 1 ? used-1-p : m.np%3 == 0 ? m.np-1-p : (3*p+1)%m.np; }
static Mesh two_triangles() { Mesh m; m.t = d2::MESHELEM_TRI; m.nn = 3; m.ne = 2; m.e = {0, 1, 2}; unsigned used = 3; for (unsigned k = 0; k < 3; ++k) m.e.push_back(corner(m, used, 3)); number(m, used); return m; }
static Mesh three_lines() { Mesh m; m.t = d2::MESHELEM_LINE; m.nn = 2; m.ne = 3; m.e = {0, 1}; unsigned used = 2; for (unsigned l = 2; l < 6; l += 2) for (unsigned k = 0; k < 2; ++k) m.e.push_back(corner(m, used, l)); number(m, used); return m; }
static Mesh listed(unsigned k) { // manifold meshes: strips, fans, closed surfaces, stacked solids
  struct L { d2::MESHELEM_TYPE t; U e; }; const L l[12] = {
    {d2::MESHELEM_TRI, {0,1,2, 2,1,3, 2,3,4, 4,3,5}}, {d2::MESHELEM_TRI, {0,1,2, 0,2,3, 0,3,4, 0,4,1}}, {d2::MESHELEM_TRI, {0,1,2, 0,3,1, 1,3,2, 2,3,0}}, {d2::MESHELEM_TRI, {1,4,0, 2,5,3, 0,4,2}},
    {d2::MESHELEM_QUAD, {0,1,4,3, 1,2,5,4, 3,4,7,6, 4,5,8,7}}, {d2::MESHELEM_QUAD, {0,1,2,3, 4,5,6,7, 2,1,9,8}}, {d2::MESHELEM_QUAD, {0,3,2,1, 4,5,6,7, 0,1,5,4, 1,2,6,5}},
    {d2::MESHELEM_TET, {0,1,2,3, 1,2,3,4, 2,3,4,5}}, {d2::MESHELEM_TET, {0,1,2,3, 4,5,6,7, 3,2,1,4}}, {d2::MESHELEM_HEX, {0,1,2,3,4,5,6,7, 4,5,6,7,8,9,10,11}}, {d2::MESHELEM_HEX, {0,1,2,3,4,5,6,7, 8,0,3,9,10,4,7,11}},
    {d2::MESHELEM_VOX, {0,1,3,4,6,7,9,10, 1,2,4,5,7,8,10,11}} };
  Mesh m; m.t = l[k].t; m.nn = N(m.t); m.e = l[k].e; m.ne = (unsigned)m.e.size()/m.nn; unsigned used = 0; for (unsigned p : m.e) if (p >= used) used = p+1; number(m, used); return m;
}
static bool linked(const Mesh &m, unsigned ie, unsigned p, unsigned q) { const unsigned n = m.nn; // p and q are the ends of an edge of the element
  int a = -1, b = -1; for (unsigned k = 0; k < n; ++k) { if (m.e[ie*n+k] == p) a = (int)k; if (m.e[ie*n+k] == q) b = (int)k; } if (a < 0 || b < 0 || a == b) return false; const int lo = a < b ? a : b, hi = a < b ? b : a;
  switch (m.t) { case d2::MESHELEM_TRI: case d2::MESHELEM_TET: case d2::MESHELEM_LINE: return true; case d2::MESHELEM_QUAD: return hi-lo == 1 || hi-lo == 3; case d2::MESHELEM_HEX: return hi < 4 || lo > 3 ? hi-lo == 1 || hi-lo == 3 : hi-lo == 4; case d2::MESHELEM_VOX: return (a^b) == 1 || (a^b) == 2 || (a^b) == 4; default: return false; } }
static void jagged(const U &ind, const U &arr, unsigned n) { ENSURES_L("one row per point", ind.size() == n+1 && ind[0] == 0); for (unsigned i = 0; i < n; ++i) ENSURES_L("rows in order", ind[i] <= ind[i+1]); ENSURES_L("the rows fill the array", ind[n] == arr.size()); }
static U row(const U &ind, const U &arr, unsigned i) { return U(arr.begin()+ind[i], arr.begin()+ind[i+1]); }
static unsigned count(const U &r, unsigned v) { unsigned c = 0; for (unsigned x : r) c += x == v; return c; }
static void around(const Mesh &m) {
  U ind = {7, 7}, arr = {5, 5, 5}; d2::JArray_ElSuP_MeshElem(ind, arr, m.e.data(), m.ne, m.nn, m.np); jagged(ind, arr, m.np);
  for (unsigned p = 0; p < m.np; ++p) { const U r = row(ind, arr, p); unsigned k = 0; for (unsigned ie = 0; ie < m.ne; ++ie) if (has(m, ie, p)) { ENSURES_L("elements around the point in order", k < r.size() && r[k] == ie); ++k; } ENSURES_L("no other element", k == r.size()); }
  U pi = {1}, pa = {9, 9}; if (vc_choose(2)) d2::JArray_PSuP_MeshElem(pi, pa, m.e.data(), m.ne, m.nn, m.np); else d2::JArrayPointSurPoint_MeshOneRingNeighborhood(pi, pa, m.e.data(), ind, arr, m.nn, m.np); jagged(pi, pa, m.np);
  for (unsigned p = 0; p < m.np; ++p) { const U r = row(pi, pa, p); for (unsigned q = 0; q < m.np; ++q) { bool share = false; for (unsigned ie = 0; ie < m.ne; ++ie) share = share || (p != q && has(m, ie, p) && has(m, ie, q)); ENSURES_L("each point of a shared element once, not itself", count(r, q) == (share ? 1u : 0u)); } }
  U ui = {3, 3, 3, 3, 3}, ua = {8, 8}; d2::JArrayEdgeUnidir_PointSurPoint(ui, ua, pi, pa); jagged(ui, ua, m.np);
  for (unsigned p = 0; p < m.np; ++p) { const U r = row(ui, ua, p), s = row(pi, pa, p); for (unsigned q = 0; q < m.np; ++q) ENSURES_L("pair once, from the smaller point", count(r, q) == (q > p ? count(s, q) : 0u)); }
}
static void edges(const Mesh &m) {
  U ind, arr; d2::JArray_ElSuP_MeshElem(ind, arr, m.e.data(), m.ne, m.nn, m.np); const bool both = vc_choose(2); U ei = {3, 3}, ea; if (vc_choose(2)) ea = {4, 4}; d2::JArrayEdge_MeshElem(ei, ea, m.e.data(), m.t, ind, arr, both); jagged(ei, ea, m.np); U all;
  for (unsigned p = 0; p < m.np; ++p) { const U r = row(ei, ea, p); for (unsigned k = 1; k < r.size(); ++k) ENSURES_L("sorted row", r[k-1] < r[k]); for (unsigned q = 0; q < m.np; ++q) { bool e = false; for (unsigned ie = 0; ie < m.ne; ++ie) e = e || linked(m, ie, p, q); const bool want = e && (both || q > p); ENSURES_L("each edge once", count(r, q) == (want ? 1u : 0u)); if (e && q > p) { all.push_back(p); all.push_back(q); } } }
  U ln; d2::MeshLine_MeshElem(ln, m.e.data(), m.ne, m.t, m.np); ENSURES_L("number of lines", ln.size() == all.size()); for (unsigned k = 0; k < all.size(); ++k) ENSURES_L("line of an edge", ln[k] == all[k]);
  U lj; d2::MeshLine_JArrayEdge(lj, ei, ea); ENSURES_L("number of lines", lj.size() == 2*ea.size()); unsigned k = 0; for (unsigned p = 0; p < m.np; ++p) for (unsigned j = ei[p]; j < ei[p+1]; ++j, ++k) ENSURES_L("line of a row", lj[2*k] == p && lj[2*k+1] == ea[j]);
}
static void neighbours(const Mesh &m) {
  const unsigned nf = (unsigned)d2::nFaceElem(m.t), nv = (unsigned)d2::nNodeElemFace(m.t, 0); U a = {1, 2, 3}; d2::ElSuEl_MeshElem(a, m.e.data(), m.ne, m.t, m.np); ENSURES_L("one entry per face", a.size() == m.ne*nf); unsigned comp[8]; for (unsigned i = 0; i < m.ne; ++i) comp[i] = i;
  for (unsigned i = 0; i < m.ne; ++i) for (unsigned f = 0; f < nf; ++f) { unsigned n = 0; bool listed = false;
    for (unsigned j = 0; j < m.ne; ++j) { if (j == i) continue; bool shared = false; for (unsigned g = 0; g < nf; ++g) { bool s = true; for (unsigned k = 0; k < nv; ++k) { const unsigned p = m.e[j*m.nn+(unsigned)d2::noelElemFace(m.t)[g][k]]; bool in = false; for (unsigned h = 0; h < nv; ++h) in = in || m.e[i*m.nn+(unsigned)d2::noelElemFace(m.t)[f][h]] == p; s = s && in; } shared = shared || s; } if (shared) { ++n; if (a[i*nf+f] == j) listed = true; for (unsigned x = 0, ci = comp[i], cj = comp[j]; x < m.ne; ++x) if (comp[x] == cj) comp[x] = ci; } }
    ENSURES_L("an element that shares the face, or the border", n == 0 ? a[i*nf+f] == UINT_MAX : listed); }
  bool manifold = true; for (unsigned i = 0; i < m.ne; ++i) for (unsigned f = 0; f < nf; ++f) if (a[i*nf+f] != UINT_MAX) { bool back = false; for (unsigned g = 0; g < nf; ++g) back = back || a[a[i*nf+f]*nf+g] == i; manifold = manifold && back; }
  if (m.t == d2::MESHELEM_TRI) for (unsigned i = 0; i < m.ne; ++i) for (unsigned f = 0; f < 3; ++f) { const unsigned j = a[i*3+f]; if (j == UINT_MAX) continue; const unsigned p = m.e[i*3+(f+1)%3], q = m.e[i*3+(f+2)%3], g = d2::FindAdjEdgeIndex(i, f, j, m.e.data()); bool opposite = false; for (unsigned h = 0; h < 3; ++h) if (m.e[j*3+(h+1)%3] == q && m.e[j*3+(h+2)%3] == p) { opposite = true; ENSURES_L("the edge with the same ends, reversed", g == h); } if (!opposite) ENSURES_L("no such edge", g == UINT_MAX); }
  if (!manifold) return; int ng = -1; U flag = {4, 4, 4}; d2::MakeGroupElem(ng, flag, m.e, a, (int)nf, (int)m.nn); ENSURES_L("one flag per element", flag.size() == m.ne); int want = 0; for (unsigned i = 0; i < m.ne; ++i) { bool first = true; for (unsigned j = 0; j < i; ++j) first = first && comp[j] != comp[i]; want += first; for (unsigned j = 0; j < m.ne; ++j) ENSURES_L("same group if and only if connected by faces", (flag[i] == flag[j]) == (comp[i] == comp[j])); ENSURES_L("group number", flag[i] < (unsigned)ng); } ENSURES_L("number of groups", ng == want);
  U f2(m.ne, 7); const unsigned ker = vc_choose(m.ne); d2::MarkConnectedElements(f2, ker, 3, a); for (unsigned i = 0; i < m.ne; ++i) ENSURES_L("exactly the connected ones are marked", f2[i] == (comp[i] == comp[ker] ? 3u : 7u));
}
VC(around_triangles) { around(two_triangles()); }
VC(around_lines) { around(three_lines()); }
VC(around_listed) { around(listed(vc_choose(12))); }
VC(edges_triangles) { edges(two_triangles()); }
VC(edges_listed) { edges(listed(vc_choose(12))); }
VC(neighbours_triangles) { neighbours(two_triangles()); }
VC(neighbours_listed) { neighbours(listed(vc_choose(12))); }
VC(neighbours_lines) { const Mesh m = three_lines(); U c(m.np, 0); for (unsigned p : m.e) ++c[p]; for (unsigned x : c) if (x > 2) return; for (unsigned i = 0; i < 3; ++i) for (unsigned j = i+1; j < 3; ++j) if (has(m, i, m.e[2*j]) && has(m, i, m.e[2*j+1])) return; neighbours(m); }
// two solids that share some of the corners of a face: neighbours if and only if they share all of them
VC(neighbours_partial) { const d2::MESHELEM_TYPE ts[3] = {d2::MESHELEM_TET, d2::MESHELEM_HEX, d2::MESHELEM_VOX}; Mesh m; m.t = ts[vc_choose(3)]; m.nn = N(m.t); m.ne = 2; const unsigned nf = (unsigned)d2::nFaceElem(m.t), nv = (unsigned)d2::nNodeElemFace(m.t, 0), f = vc_choose(nf), sub = vc_choose(1u << nv), g = (f + 3*sub) % nf; for (unsigned k = 0; k < 2*m.nn; ++k) m.e.push_back(k); unsigned r = (f+g+sub)%nv;
  for (unsigned k = 0; k < nv; ++k) if (sub >> k & 1) m.e[m.nn+(unsigned)d2::noelElemFace(m.t)[g][k]] = (unsigned)d2::noelElemFace(m.t)[f][(r+nv-k)%nv]; m.np = 2*m.nn; neighbours(m); }
VC(triangle_lists) {
  Mesh m = two_triangles(); U ti, ta, ei, ea; d2::JArray_ElSuP_MeshTri(ti, ta, m.e, m.np); d2::JArray_ElSuP_MeshElem(ei, ea, m.e.data(), m.ne, 3, m.np); for (unsigned k = 0; k <= m.np; ++k) ENSURES_L("same rows", ti[k] == ei[k]); ENSURES_L("same size", ta.size() == ea.size()); for (unsigned k = 0; k < ea.size(); ++k) ENSURES_L("same elements", ta[k] == ea[k]);
  U f = m.e; d2::FlipElement_Tri(f); for (unsigned t = 0; t < 2; ++t) ENSURES_L("opposite orientation", f[3*t] == m.e[3*t] && f[3*t+1] == m.e[3*t+2] && f[3*t+2] == m.e[3*t+1]); for (unsigned k = 0; k < 3; ++k) ENSURES_L("place of a corner", d2::FindIndexTri(m.e.data()+3, m.e[3+k]) == k);
}
VC(dihedral_quads) { Mesh m = vc_choose(2) ? two_triangles() : listed(vc_choose(4)); for (unsigned i = 0; i < m.ne; ++i) for (unsigned j = 0; j < m.ne; ++j) if (i != j) { unsigned n = 0; for (unsigned k = 0; k < 3; ++k) { n += has(m, j, m.e[3*i+k]); for (unsigned l = 0; l < 3; ++l) if (m.e[3*i+k] == m.e[3*j+l] && m.e[3*i+(k+1)%3] == m.e[3*j+(l+1)%3]) return; } if (n > 2) return; } // consistently oriented
  U q; d2::ElemQuad_DihedralTri(q, m.e.data(), m.ne, m.np); unsigned n = 0; for (unsigned i = 0; i < m.ne; ++i) for (unsigned j = i+1; j < m.ne; ++j) for (unsigned k = 0; k < 3; ++k) for (unsigned l = 0; l < 3; ++l) if (m.e[3*i+(k+1)%3] == m.e[3*j+(l+2)%3] && m.e[3*i+(k+2)%3] == m.e[3*j+(l+1)%3]) { ++n; bool in = false; for (unsigned x = 0; x+3 < q.size(); x += 4) in = in || (q[x] == m.e[3*i+k] && q[x+1] == m.e[3*j+l] && q[x+2] == m.e[3*i+(k+1)%3] && q[x+3] == m.e[3*i+(k+2)%3]); ENSURES_L("opposite corners, then the shared edge", in); } ENSURES_L("one quad per shared edge", q.size() == 4*n); }
VC(split_quads) { U q; const unsigned n = vc_choose(4); for (unsigned k = 0; k < 4*n; ++k) q.push_back((7*k+3)%19); U t = {1, 1}; d2::convert2Tri_Quad(t, q); ENSURES_L("two triangles each", t.size() == 6*n); for (unsigned k = 0; k < n; ++k) { const unsigned c[6] = {0, 1, 2, 2, 3, 0}; for (unsigned j = 0; j < 6; ++j) ENSURES_L("split along the diagonal, same orientation", t[6*k+j] == q[4*k+c[j]]); } }
VC(hair) { U root(1, 0); const unsigned h = 1 + vc_choose(3); for (unsigned k = 0; k < h; ++k) root.push_back(root[k] + 3 + vc_choose(3)); U ind, arr; d2::JArray_PSuP_Hair(ind, arr, root); const unsigned np = root[h]; jagged(ind, arr, np); for (unsigned p = 0; p < np; ++p) for (unsigned q = 0; q < np; ++q) { bool same = false; for (unsigned k = 0; k < h; ++k) same = same || (p >= root[k] && p < root[k+1] && q >= root[k] && q < root[k+1]); const unsigned d = p < q ? q-p : p-q; ENSURES_L("up to two steps along the same strand", count(row(ind, arr, p), q) == (same && d > 0 && d < 3 ? 1u : 0u)); } }
// jagged arrays: every pattern of three rows
static void pattern(U &ind, U &arr, unsigned n, unsigned mask, bool desc, bool diagonal) { ind.assign(1, 0); unsigned bit = 0; for (unsigned i = 0; i < n; ++i) { U r; for (unsigned j = 0; j < n; ++j) if (j != i || diagonal) { if (mask >> bit & 1) r.push_back(j); ++bit; } for (unsigned k = 0; k < r.size(); ++k) arr.push_back(desc ? r[r.size()-1-k] : r[k]); ind.push_back((unsigned)arr.size()); } }
VC(jarray_diagonal) { U i0, a0, i1 = {3}, a1 = {1, 1}; pattern(i0, a0, 3, vc_choose(512), vc_choose(2), true); d2::JArray_AddDiagonal(i1, a1, i0.data(), i0.size(), a0.data(), a0.size()); jagged(i1, a1, 3); for (unsigned i = 0; i < 3; ++i) for (unsigned j = 0; j < 3; ++j) ENSURES_L("the row and its diagonal, once", count(row(i1, a1, i), j) == (i == j ? 1u : count(row(i0, a0, i), j))); }
VC(jarray_extend) { U i0, a0, i1 = {3}, a1 = {1, 1}; const unsigned n = 3 + vc_choose(2); const unsigned m4[6] = {0x999, 0xfff, 0x8c1, 0x421, 0x007, 0x6a0}; pattern(i0, a0, n, n == 3 ? vc_choose(64) : m4[vc_choose(6)], vc_choose(2), false); d2::JArray_Extend(i1, a1, i0.data(), i0.size(), a0.data()); jagged(i1, a1, n);
  for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { bool two = false; for (unsigned k = 0; k < n; ++k) two = two || (count(row(i0, a0, i), k) && count(row(i0, a0, k), j)); ENSURES_L("reached in two steps, not itself, once", count(row(i1, a1, i), j) == (two && i != j ? 1u : 0u)); } }
VC(jarray_sort) { U ind(1, 0), arr; const unsigned n0 = vc_choose(4), v[6] = {3, 1, 4, 1, 5, 9}; const unsigned s[3] = {n0, 3-n0, 3}; for (unsigned r = 0; r < 3; ++r) { for (unsigned k = 0; k < s[r]; ++k) arr.push_back(r == 2 ? v[(unsigned)arr.size()%6] : vc_choose(4)); ind.push_back((unsigned)arr.size()); }
  U a = arr; if (vc_choose(2)) d2::JArray_Sort(ind, a); else d2::JArray_Sort(ind.data(), 3, a.data()); for (unsigned r = 0; r < 3; ++r) { const U x = row(ind, arr, r), y = row(ind, a, r); for (unsigned k = 1; k < y.size(); ++k) ENSURES_L("ascending", y[k-1] <= y[k]); for (unsigned k = 0; k < 10; ++k) ENSURES_L("same entries", count(x, k) == count(y, k)); } }
VC(jarray_sort_five) { U ind = {0, 5}, arr; for (unsigned k = 0; k < 5; ++k) arr.push_back(vc_choose(3)*3 + k%2); U a = arr; if (vc_choose(2)) d2::JArray_Sort(ind, a); else d2::JArray_Sort(ind.data(), 1, a.data()); for (unsigned k = 1; k < 5; ++k) ENSURES_L("ascending", a[k-1] <= a[k]); for (unsigned k = 0; k < 9; ++k) ENSURES_L("same entries", count(arr, k) == count(a, k)); U e, z; d2::JArray_Sort(e, z); ENSURES(z.empty()); }
// mixed meshes
struct Mix { std::vector<d2::MESHELEM_TYPE> t; U ind, e; unsigned ne, np; };
static Mix mix(unsigned k) {
  struct L { std::vector<d2::MESHELEM_TYPE> t; U e; }; const d2::MESHELEM_TYPE T = d2::MESHELEM_TRI, Q = d2::MESHELEM_QUAD, Te = d2::MESHELEM_TET, H = d2::MESHELEM_HEX, P = d2::MESHELEM_PYRAMID, W = d2::MESHELEM_WEDGE, X = d2::MESHELEM_VOX;
  const L l[8] = { {{T, Q, T}, {0,1,2, 1,3,4,2, 4,5,2}}, {{Q, T, Q}, {0,1,2,3, 4,5,6, 2,1,7,8}}, {{T, T, T, Q}, {0,1,2, 2,1,3, 4,5,6, 6,5,7,8}}, {{H, P, Te}, {0,1,2,3,4,5,6,7, 4,5,6,7,8, 5,6,8,9}}, {{H, W}, {0,1,2,3,4,5,6,7, 1,8,2,5,9,6}}, {{P, P, W}, {0,1,2,3,4, 3,2,1,0,5, 1,4,0,6,8,7}}, {{Te, Te}, {0,1,2,3, 4,5,6,7}}, {{X, P}, {0,1,2,3,4,5,6,7, 4,5,7,6,8}} };
  Mix m; m.t = l[k].t; m.e = l[k].e; m.ne = (unsigned)m.t.size(); m.ind.assign(1, 0); m.np = 0; for (auto t : m.t) m.ind.push_back(m.ind.back()+N(t)); for (unsigned p : m.e) if (p >= m.np) m.np = p+1; const unsigned r = vc_choose(2); if (r) { for (unsigned &p : m.e) p = m.np-p; m.np += 2; } return m;
}
static bool mixhas(const Mix &m, unsigned ie, unsigned p) { for (unsigned k = m.ind[ie]; k < m.ind[ie+1]; ++k) if (m.e[k] == p) return true; return false; }
static U face(const Mix &m, unsigned ie, unsigned f) { U r; for (int k = 0; k < d2::nNodeElemFace(m.t[ie], (int)f); ++k) r.push_back(m.e[m.ind[ie]+(unsigned)d2::noelElemFace(m.t[ie])[f][k]]); return r; }
static bool same_set(const U &a, const U &b) { if (a.size() != b.size()) return false; for (unsigned x : a) if (!count(b, x)) return false; return true; }
VC(mixed) {
  const Mix m = mix(vc_choose(8)); U si, sa; d2::JArray_ElSuP_MeshMix(si, sa, m.ind, m.e, (int)m.np); jagged(si, sa, m.np); for (unsigned p = 0; p < m.np; ++p) { const U r = row(si, sa, p); unsigned k = 0; for (unsigned ie = 0; ie < m.ne; ++ie) if (mixhas(m, ie, p)) { ENSURES_L("elements around the point", k < r.size() && r[k] == ie); ++k; } ENSURES_L("no other", k == r.size()); }
  I fi, fr; if (vc_choose(2)) d2::ElSuEl_MeshMix(fi, fr, m.ind, m.e, m.t, (int)m.np); else d2::ElSuEl_MeshMix(fi, fr, m.ind, m.e, m.t, si, sa); ENSURES_L("rows", fi.size() == m.ne+1 && fi[0] == 0); unsigned comp[4] = {0, 1, 2, 3}; U be, bi(1, 0); std::vector<d2::MESHELEM_TYPE> bt;
  for (unsigned i = 0; i < m.ne; ++i) { ENSURES_L("faces of the element", fi[i+1]-fi[i] == d2::nFaceElem(m.t[i])); for (unsigned f = 0; f < (unsigned)d2::nFaceElem(m.t[i]); ++f) { const U a = face(m, i, f); int je = -1, jf = -1; for (unsigned j = 0; j < m.ne; ++j) if (j != i) for (unsigned g = 0; g < (unsigned)d2::nFaceElem(m.t[j]); ++g) if (same_set(a, face(m, j, g))) { je = (int)j; jf = (int)g; } const unsigned x = 2*((unsigned)fi[i]+f); ENSURES_L("neighbour", fr[x] == je); if (je >= 0) { ENSURES_L("face of the neighbour", fr[x+1] == jf); for (unsigned y = 0, ci = comp[i], cj = comp[(unsigned)je]; y < m.ne; ++y) if (comp[y] == cj) comp[y] = ci; } else if (a.size() > 2) { bt.push_back(a.size() == 3 ? d2::MESHELEM_TRI : d2::MESHELEM_QUAD); be.insert(be.end(), a.begin(), a.end()); bi.push_back((unsigned)be.size()); } } }
  ENSURES_L("size", fr.size() == 2*(unsigned)fi[m.ne]); int ng = 9; I grp; if (vc_choose(2)) d2::MakeGroupElem_MeshMix(ng, grp, m.ind, m.e, m.t, (int)m.np); else d2::MakeGroupElem(ng, grp, m.ind, m.e, fi, fr); int want = 0; for (unsigned i = 0; i < m.ne; ++i) { bool first = true; for (unsigned j = 0; j < i; ++j) first = first && comp[j] != comp[i]; want += first; for (unsigned j = 0; j < m.ne; ++j) ENSURES_L("same group if and only if connected", (grp[i] == grp[j]) == (comp[i] == comp[j])); ENSURES_L("group number", grp[i] >= 0 && grp[i] < ng); } ENSURES_L("number of groups", ng == want);
  for (int g = 0; g < ng; ++g) { U ci, ce; std::vector<d2::MESHELEM_TYPE> ct; d2::ClipGroup_MeshMix(ci, ce, ct, m.ind, m.e, m.t, g, grp); unsigned k = 0, x = 0; for (unsigned i = 0; i < m.ne; ++i) if (grp[i] == g) { ENSURES_L("element of the group", k < ct.size() && ct[k] == m.t[i] && ci[k] == x); for (unsigned c = m.ind[i]; c < m.ind[i+1]; ++c, ++x) ENSURES_L("its corners", x < ce.size() && ce[x] == m.e[c]); ++k; ENSURES_L("its end", ci[k] == x); } ENSURES_L("nothing else", ct.size() == k && ci.size() == k+1 && ce.size() == x); }
  if (N(m.t[0]) > 4 || m.t[0] == d2::MESHELEM_TET) { U Bi, Be; std::vector<d2::MESHELEM_TYPE> Bt; d2::Boundary_MeshMix(Bi, Be, Bt, m.ind, m.e, m.t, fi, fr); ENSURES_L("number of border faces", Bt.size() == bt.size() && Bi.size() == bi.size() && Be.size() == be.size()); for (unsigned k = 0; k < bt.size(); ++k) ENSURES_L("border face", Bt[k] == bt[k] && Bi[k+1] == bi[k+1]); for (unsigned k = 0; k < be.size(); ++k) ENSURES_L("corner of a border face", Be[k] == be[k]); }
}
VC(mixed_surface) { const Mix m = mix(vc_choose(3)); U t = {5}; d2::Convert2Tri_MeshMix(t, m.ind, m.e, m.t); unsigned k = 0; I f; d2::FlipElement_MeshMix(f, m.ind, m.e, m.t); ENSURES_L("size", f.size() == m.e.size()); for (unsigned i = 0; i < m.ne; ++i) { const unsigned n = N(m.t[i]), *e = m.e.data()+m.ind[i]; for (unsigned c = 0; c < 6 && (n == 4 || c < 3); ++c, ++k) { const unsigned w[6] = {0, 1, 2, 2, 3, 0}; ENSURES_L("split along the diagonal", k < t.size() && t[k] == e[w[c]]); } for (unsigned c = 0; c < n; ++c) ENSURES_L("reversed", f[m.ind[i]+c] == (int)e[n-1-c]); } ENSURES_L("nothing else", t.size() == k); }
VC(mixed_add) { Mix m = mix(vc_choose(8)); const d2::MESHELEM_TYPE t = (d2::MESHELEM_TYPE)vc_choose(7); const unsigned n = vc_choose(3), nn = N(t); I in; for (unsigned k = 0; k < n*nn; ++k) in.push_back((int)(5*k+1)%23); U ind = m.ind, e = m.e; auto ty = m.t; d2::AddElement(t, in, ind, e, ty); ENSURES_L("sizes", ty.size() == m.ne+n && ind.size() == m.ne+n+1 && e.size() == m.e.size()+n*nn); for (unsigned k = 0; k < m.e.size(); ++k) ENSURES_L("old corners stay", e[k] == m.e[k]); for (unsigned k = 0; k <= m.ne; ++k) ENSURES_L("old rows stay", ind[k] == m.ind[k]); for (unsigned k = 0; k < n; ++k) { ENSURES_L("type", ty[m.ne+k] == t); ENSURES_L("row", ind[m.ne+k+1] == m.e.size()+(k+1)*nn); } for (unsigned k = 0; k < n*nn; ++k) ENSURES_L("new corners", e[m.e.size()+k] == (unsigned)in[k]); }
// one vertex per pair of position and texture coordinate
VC(unify) {
  std::vector<D> xyz(12), tex(8); vc_reals(xyz.data(), 12, "xyz"); vc_reals(tex.data(), 8, "uv"); const unsigned k = vc_choose(2); U ex = k ? U{0,1,2, 2,1,3} : U{0,1,2, 0,2,3, 0,3,1}, et; for (unsigned c = 0; c < ex.size(); ++c) et.push_back(c < 3 ? c : c < 6 ? vc_choose(4) : (et[c-3]+c)%4 == et[c-4] ? et[c-3] : (c+et[c-5])%4); for (unsigned t = 0; t < et.size(); t += 3) if (et[t] == et[t+1] || et[t+1] == et[t+2] || et[t] == et[t+2]) return;
  std::vector<D> X, T; U tu, ux, ut; d2::UnifySeparateIndexing_PosTex(X, T, tu, ux, ut, xyz, tex, ex, et); ENSURES_L("one index per corner", tu.size() == ex.size()); ENSURES_L("sizes", ux.size() == ut.size() && X.size() == 3*ux.size() && T.size() == 2*ux.size());
  for (unsigned c = 0; c < ex.size(); ++c) { const unsigned u = tu[c]; ENSURES_L("index of a vertex", u < ux.size()); ENSURES_L("the corner's pair", ux[u] == ex[c] && ut[u] == et[c]); for (unsigned d = 0; d < 3; ++d) ENSURES_EQ_L("position", X[3*u+d], xyz[3*ex[c]+d]); for (unsigned d = 0; d < 2; ++d) ENSURES_EQ_L("texture coordinate", T[2*u+d], tex[2*et[c]+d]); for (unsigned b = 0; b < c; ++b) ENSURES_L("same vertex if and only if same pair", (tu[b] == u) == (ex[b] == ex[c] && et[b] == et[c])); }
}
