// enumerated triangle patches and the invariant of the dynamic triangle mesh
#pragma once
namespace d2 = delfem2;
typedef std::vector<unsigned int> U; typedef std::vector<int> I;
#define NONE UINT_MAX
struct M { std::vector<d2::CDynPntSur> p; std::vector<d2::CDynTri> t; };
static const unsigned NL = 13;
static U listed(unsigned k) { // discs, then closed surfaces
  const U l[NL] = { {0,1,2}, {0,1,2, 2,1,3}, {0,1,2, 0,2,3, 0,3,1}, {0,1,2, 0,2,3, 0,3,4, 0,4,1}, {0,1,2, 2,1,3, 2,3,4, 4,3,5, 2,4,6},
    {0,1,2, 0,2,3, 0,3,4, 0,4,5, 0,5,6, 0,6,1},
    {0,1,2, 0,2,3, 0,3,4, 0,4,5, 0,5,1, 2,1,6, 3,2,6, 4,3,7, 6,1,8},
    {0,1,4, 1,5,4, 1,2,5, 2,3,6, 2,6,5, 4,5,7, 5,8,7, 5,6,8, 6,9,8, 7,8,10, 8,9,10},
    {0,1,4, 1,5,4, 1,2,5, 2,6,5, 0,4,3, 4,7,3, 5,6,8, 6,9,8, 3,7,10, 7,11,10, 7,8,11, 8,9,11},
    {0,1,2, 0,3,1, 1,3,2, 2,3,0}, {0,1,2, 0,2,3, 0,3,1, 4,2,1, 4,3,2, 4,1,3}, {0,1,2, 0,2,3, 0,3,4, 0,4,1, 5,2,1, 5,3,2, 5,4,3, 5,1,4},
    {0,1,2, 0,2,3, 0,3,4, 0,4,5, 0,5,1, 6,2,1, 6,3,2, 6,4,3, 6,5,4, 6,1,5} };
  return l[k]; }
static U numbered(unsigned k, unsigned style, unsigned &np) { U e = listed(k); np = 0; for (unsigned p : e) if (p >= np) np = p+1; const unsigned used = np; if (style) np += style;
  for (unsigned &p : e) p = style == 0 ? p : style == 1 ? used-p : np%3 ? (3*p+1)%np : np-1-p; U r; const unsigned nt = (unsigned)e.size()/3;
  for (unsigned t = 0; t < nt; ++t) { const unsigned s = style == 1 ? nt-1-t : t; for (unsigned c = 0; c < 3; ++c) r.push_back(e[3*s+(c+s*style)%3]); } return r; }
struct H { U t; unsigned n; unsigned operator()(unsigned a, unsigned b) const { return a < n && b < n ? t[a*n+b] : NONE; } }; // the triangle with the directed edge
static H edges_of(const M &m) { H h; h.n = (unsigned)m.p.size(); h.t.assign(h.n*h.n, NONE); bool in = true, once = true; for (unsigned i = 0; i < m.t.size(); ++i) for (unsigned k = 0; k < 3; ++k) { const unsigned a = m.t[i].v[k], b = m.t[i].v[k < 2 ? k+1 : 0]; if (a < h.n && b < h.n && a != b) { unsigned &x = h.t[a*h.n+b]; if (x != NONE) once = false; x = i; } else in = false; } ENSURES_L("three different points of the mesh", in); ENSURES_L("one triangle per directed edge", once); return h; }
// the invariant of the data structure
static void valid(const M &m) {
  const H h = edges_of(m); bool n = true, u = true, c = true; U used(m.p.size(), 0);
  for (unsigned i = 0; i < m.t.size(); ++i) { const auto &v = m.t[i].v; for (unsigned e = 0; e < 3; ++e) { if (v[e] < used.size()) used[v[e]] = 1; if (m.t[i].s2[e] != h(v[e ? e-1 : 2], v[e < 2 ? e+1 : 0])) n = false; } } ENSURES_L("neighbour across the edge", n);
  for (unsigned p = 0; p < m.p.size(); ++p) { if ((m.p[p].e != NONE) != (used[p] != 0)) u = false; if (used[p] && !(m.p[p].e < m.t.size() && m.p[p].d < 3 && m.t[m.p[p].e].v[m.p[p].d] == p)) c = false; } ENSURES_L("a point has a triangle if and only if it is used", u); ENSURES_L("the triangle of the point", c);
}
typedef U S; // set of oriented triangles
static unsigned tri(unsigned a, unsigned b, unsigned c) { return a < b && a < c ? (a*64+b)*64+c : b < c ? (b*64+c)*64+a : (c*64+a)*64+b; }
static unsigned find(const S &s, unsigned x) { unsigned n = 0; for (unsigned y : s) n += x == y; return n; }
static S tris(const M &m) { S s; s.reserve(m.t.size()+4); for (auto &t : m.t) s.push_back(tri(t.v[0], t.v[1], t.v[2])); return s; }
static S without(const S &s, unsigned x) { S r; r.reserve(s.size()+4); for (unsigned y : s) if (x != y) r.push_back(y); return r; }
static void same(const M &m, const S &w, const char *l) { const S s = tris(m); vc_check_(s.size() == w.size(), l); bool in = true; for (unsigned x : w) in = in && find(s, x) == 1; vc_check_(in, l); }
static M build(unsigned k, unsigned style) { unsigned np; const U e = numbered(k, style, np); M m; m.p.resize(2); m.t.resize(3); d2::InitializeMesh(m.p, m.t, e.data(), e.size()/3, np); return m; }
static unsigned third(const M &m, unsigned i, unsigned e) { const unsigned j = m.t[i].s2[e]; for (unsigned k = 0; k < 3; ++k) if (m.t[j].v[k] != m.t[i].v[(e+1)%3] && m.t[j].v[k] != m.t[i].v[(e+2)%3]) return m.t[j].v[k]; return NONE; }
static bool edge(const M &m, unsigned p, unsigned q) { for (auto &t : m.t) for (unsigned k = 0; k < 3; ++k) if ((t.v[k] == p && t.v[(k+1)%3] == q) || (t.v[k] == q && t.v[(k+1)%3] == p)) return true; return false; }
static bool border(const M &m, unsigned p) { for (auto &t : m.t) for (unsigned k = 0; k < 3; ++k) if ((t.v[(k+1)%3] == p || t.v[(k+2)%3] == p) && t.s2[k] == NONE) return true; return false; }
static unsigned degree(const S &w, unsigned p) { unsigned n = 0; for (unsigned x : w) n += x/4096 == p || x/64%64 == p || x%64 == p; return n; }
