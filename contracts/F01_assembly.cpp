// cloth: assembly of the mesh, contact penalty, gravity, time step, positive semi-definite projection of the stress, constitutive matrix
// @opts: prune=0
// @stub: time_step /Solve_CG/ stub_solve
// @stub: time_step_ilu /Solve_PCG/ stub_psolve
// @stub: time_step_ilu /CPreconditionerILUIdE9DecomposeEv/ stub_decompose
// @assume: two triangles and the hinge between them, one free point (loops over elements are unrolled for them); the linear solver is replaced by its contract (L03): fixed rows of the identity give back the right-hand side
#include <cassert>
#include <climits>
#include <cmath>
#include <algorithm>
#include <iostream>
#include <vector>
#include "vc.h"
#include "spec.h"
#include "delfem2/femcloth.h"
#include "delfem2/cloth_internal.h"
namespace d2 = delfem2; typedef double D; typedef std::vector<D> V; typedef std::vector<unsigned int> U; typedef d2::CMatrixSparse<D> M;
struct Plane : d2::CInput_Contact { D n[3], h; double penetrationNormal(double &nx, double &ny, double &nz, double x, double y, double z) const override { nx = n[0]; ny = n[1]; nz = n[2]; return h - (n[0]*x + n[1]*y + n[2]*z); } };
static void plane(Plane &c) { HAVOC(c.n); c.h = vc_real("h"); REQUIRES(spec::dot3(c.n, c.n) == 1); }
VC(contact_energy) { Plane in; HAVOC(in.n); in.h = vc_real("h"); D c[3], W, dW[3], H[3][3]; HAVOC(c); const D k = vc_real("k"), cl = vc_real("clearance"); d2::WdWddW_Contact(W, dW, H, c, k, cl, in); const D pd = in.h - spec::dot3(in.n, c) + cl; 
  if (pd < 0) { ENSURES_EQ_L("no energy without contact", W, 0); for (int i = 0; i < 9; ++i) { ENSURES_EQ_L("no force without contact", dW[i%3], 0); ENSURES_EQ_L("no stiffness without contact", H[i/3][i%3], 0); } return; }
  ENSURES_EQ_L("penalty energy", W, k*pd*pd/2); for (int i = 0; i < 3; ++i) { ENSURES_EQ_L("gradient", dW[i], VC_DIFF(W, c[i])); for (int j = 0; j < 3; ++j) ENSURES_EQ_L("Hessian", H[i][j], VC_DIFF(dW[i], c[j])); } }
struct Cloth { unsigned np, dim; U t, q; V X, x; M A; V K; Plane in; D la, mu, be, kc, cl; };
static V dense(const M &A) { const unsigned n = A.nrowblk_, L = 3*n; V a(L*L, 0.0); for (unsigned i = 0; i < n; ++i) { for (unsigned p = 0; p < 9; ++p) a[(3*i+p/3)*L + 3*i+p%3] = A.val_dia_[9*i+p]; for (unsigned c = A.col_ind_[i]; c < A.col_ind_[i+1]; ++c) for (unsigned p = 0; p < 9; ++p) a[(3*i+p/3)*L + 3*A.row_ptr_[c]+p%3] = A.val_crs_[9*c+p]; } return a; }
static void cloth(Cloth &c, unsigned style, bool bend) { c.np = 5; const U t = {0,1,2, 2,1,3}, q = {0,3,1,2}; for (unsigned i : t) c.t.push_back(style ? 4-i : i); if (bend) for (unsigned i : q) c.q.push_back(style ? 4-i : i); c.X.resize(c.np*c.dim); c.x.resize(3*c.np); vc_reals(c.X.data(), (int)c.X.size(), "X"); vc_reals(c.x.data(), (int)c.x.size(), "x"); c.la = vc_real("lambda"); c.mu = vc_real("mu"); c.be = vc_real("bend"); c.kc = vc_real("kc"); c.cl = vc_real("clearance");
  U ind(1, 0), ptr; for (unsigned i = 0; i < c.np; ++i) { const unsigned s = style ? 4-i : i; for (unsigned j = 0; j < c.np; ++j) if (i != j && s < 4 && (style ? 4-j : j) < 4) ptr.push_back(j); ind.push_back((unsigned)ptr.size()); } c.A.Initialize(c.np, 3, true); c.A.SetPattern(ind.data(), ind.size(), ptr.data(), ptr.size()); vc_reals(c.A.val_crs_.data(), (int)c.A.val_crs_.size(), "crs"); vc_reals(c.A.val_dia_.data(), (int)c.A.val_dia_.size(), "dia"); c.K = dense(c.A);
  for (unsigned k = 0; k < 6; k += 3) { D p[3][3] = {}; for (unsigned i = 0; i < 3; ++i) for (unsigned d = 0; d < c.dim; ++d) p[i][d] = c.X[c.t[k+i]*c.dim+d]; D a[3], b[3], n[3]; spec::sub3(a, p[1], p[0]); spec::sub3(b, p[2], p[0]); spec::cross(n, a, b); REQUIRES_POS(spec::dot3(n, n), 1e-3); REQUIRES_NONZERO(spec::dot3(a, a)); REQUIRES_NONZERO(spec::dot3(b, b)); } }
static D add(Cloth &c, V &r) { D W = 0; const unsigned L = 3*c.np; for (unsigned k = 0; k < c.t.size(); k += 3) { const unsigned *p = c.t.data()+k; D X[3][3] = {}, x[3][3], e, g[3][3], H[3][3][3][3]; for (unsigned i = 0; i < 3; ++i) { for (unsigned d = 0; d < c.dim; ++d) X[i][d] = c.X[p[i]*c.dim+d]; for (unsigned d = 0; d < 3; ++d) x[i][d] = c.x[3*p[i]+d]; } d2::WdWddW_CST(e, g, H, X, x, c.la, c.mu); W += e; for (unsigned i = 0; i < 3; ++i) for (unsigned a = 0; a < 3; ++a) { r[3*p[i]+a] += g[i][a]; for (unsigned j = 0; j < 3; ++j) for (unsigned b = 0; b < 3; ++b) c.K[(3*p[i]+a)*L + 3*p[j]+b] += H[i][j][a][b]; } }
  for (unsigned k = 0; k < c.q.size(); k += 4) { const unsigned *p = c.q.data()+k; D X[4][3] = {}, x[4][3], e, g[4][3], H[4][4][3][3]; for (unsigned i = 0; i < 4; ++i) { for (unsigned d = 0; d < c.dim; ++d) X[i][d] = c.X[p[i]*c.dim+d]; for (unsigned d = 0; d < 3; ++d) x[i][d] = c.x[3*p[i]+d]; } d2::WdWddW_Bend(e, g, H, X, x, c.be); W += e; for (unsigned i = 0; i < 4; ++i) for (unsigned a = 0; a < 3; ++a) { r[3*p[i]+a] += g[i][a]; for (unsigned j = 0; j < 4; ++j) for (unsigned b = 0; b < 3; ++b) c.K[(3*p[i]+a)*L + 3*p[j]+b] += H[i][j][a][b]; } } return W; }
static D contact(Cloth &c, V &r) { D W = 0; const unsigned L = 3*c.np; for (unsigned p = 0; p < c.np; ++p) { D e, g[3], H[3][3]; d2::WdWddW_Contact(e, g, H, c.x.data()+3*p, c.kc, c.cl, c.in); W += e; for (unsigned a = 0; a < 3; ++a) { r[3*p+a] += g[a]; for (unsigned b = 0; b < 3; ++b) c.K[(3*p+a)*L + 3*p+b] += H[a][b]; } } return W; }
static void check(const V &a, const V &b, const char *l) { ENSURES_L("size", a.size() == b.size()); for (unsigned i = 0; i < a.size(); ++i) ENSURES_EQ_L(l, a[i], b[i]); }
static void assembly(unsigned dim, bool bend) { Cloth c; c.dim = dim; cloth(c, 1, bend); V r(3*c.np), b; vc_reals(r.data(), (int)r.size(), "r"); b = r; const V r0 = r; const D W = d2::MergeLinSys_Cloth(c.A, b.data(), c.la, c.mu, c.be, c.X.data(), c.np, dim, c.t.data(), 2, c.q.data(), (unsigned)c.q.size()/4, c.x.data()), w = add(c, r); ENSURES_EQ_L("energy is the sum", W, w); check(b, r, "every element adds its gradient"); check(dense(c.A), c.K, "every element adds its Hessian");
  if (dim == 3) { V g = r0; D e = vc_real("W"); const D e0 = e; AddWdW_Cloth(e, g, c.x, c.X, c.t, c.q, c.la, c.mu, c.be); ENSURES_EQ_L("energy is added", e, e0 + w); check(g, r, "gradient is added"); } }
VC(assemble_cloth_plane) { assembly(2, true); }
VC(assemble_cloth_space) { assembly(3, vc_choose(2)); }
VC(assemble_contact) { Cloth c; c.np = 2; plane(c.in); c.kc = vc_real("kc"); c.cl = vc_real("clearance"); c.x.resize(6); vc_reals(c.x.data(), 6, "x"); const U ind = {0, 1, 2}, ptr = {1, 0}; c.A.Initialize(2, 3, true); c.A.SetPattern(ind.data(), 3, ptr.data(), 2); vc_reals(c.A.val_crs_.data(), 18, "crs"); vc_reals(c.A.val_dia_.data(), 18, "dia"); c.K = dense(c.A); V r(6), b; vc_reals(r.data(), 6, "r"); b = r; const D W = d2::MergeLinSys_Contact(c.A, b.data(), c.kc, c.cl, c.in, c.x.data(), 2), w = contact(c, r); ENSURES_EQ_L("energy is the sum", W, w); check(b, r, "gradients are added"); check(dense(c.A), c.K, "Hessians are added"); }
VC(gravity) { const unsigned n = 1 + vc_choose(3); V x(3*n), r(3*n); vc_reals(x.data(), (int)(3*n), "x"); vc_reals(r.data(), (int)(3*n), "r"); D g[3]; HAVOC(g); const D m = vc_real("m"); const V r0 = r; const D W = AddWdW_Gravity(r, x, g, m); D w = 0; for (unsigned i = 0; i < 3*n; ++i) { w -= m*g[i%3]*x[i]; ENSURES_EQ_L("weight", r[i], r0[i] - m*g[i%3]); } ENSURES_EQ_L("potential energy", W, w); }
// --- time step: the system that is solved and what is done with its solution
static unsigned calls = 0; static V sol_b, sol_K, sol_x; static U sol_fix; 
extern "C" std::vector<double> stub_solve(d2::ViewAsVectorXd &r, d2::ViewAsVectorXd &u, d2::ViewAsVectorXd &, d2::ViewAsVectorXd &, double, unsigned, const M &A) { ++calls; sol_b.assign(r.p, r.p+r.n); sol_K = dense(A); vc_reals(u.p, (int)u.n, "solution"); for (unsigned i = 0; i < u.n; ++i) if (i < sol_fix.size() && sol_fix[i]) u.p[i] = r.p[i]; sol_x.assign(u.p, u.p+u.n); return V(); }
extern "C" std::vector<double> stub_psolve(d2::ViewAsVectorXd &r, d2::ViewAsVectorXd &u, d2::ViewAsVectorXd &p, d2::ViewAsVectorXd &q, double e, unsigned n, const M &A, const d2::CPreconditionerILU<D> &) { return stub_solve(r, u, p, q, e, n, A); }
extern "C" bool stub_decompose(d2::CPreconditionerILU<D> *) { return true; } // the preconditioner is any operator: the solver contract does not depend on it
static void step(bool ilu) { // one triangle far from contact
  Cloth c; c.dim = 3; c.np = 3; c.X.resize(9); c.x.resize(9); V v(9); vc_reals(c.X.data(), 9, "X"); vc_reals(c.x.data(), 9, "x"); vc_reals(v.data(), 9, "v"); c.t = {0, 2, 1}; c.la = vc_real("lambda"); c.mu = vc_real("mu"); c.be = 0; c.kc = vc_real("kc"); c.cl = vc_real("clearance"); HAVOC(c.in.n); c.in.h = vc_real("h"); D g[3]; HAVOC(g); const D m = vc_real("m"), dt = vc_real("dt"); REQUIRES_POS(dt, 1e-2); REQUIRES_POS(m, 1e-2); D a[3], b[3], n[3]; spec::sub3(a, c.X.data()+3, c.X.data()); spec::sub3(b, c.X.data()+6, c.X.data()); spec::cross(n, a, b); REQUIRES_POS(spec::dot3(n, n), 1e-3); REQUIRES_NONZERO(spec::dot3(a, a)); REQUIRES_NONZERO(spec::dot3(b, b)); for (unsigned p = 0; p < 3; ++p) REQUIRES(c.in.h - spec::dot3(c.in.n, c.x.data()+3*p) + c.cl < -1e-3);
  const U ind = {0, 2, 4, 6}, ptr = {1, 2, 0, 2, 0, 1}; c.A.Initialize(3, 3, true); c.A.SetPattern(ind.data(), 4, ptr.data(), 6); vc_reals(c.A.val_crs_.data(), 54, "crs"); vc_reals(c.A.val_dia_.data(), 27, "dia"); c.K.assign(81, 0.0); std::vector<int> f(9, 0); const unsigned s = vc_choose(3); if (s == 1) f[1] = f[6] = 1; if (s == 2) f[3] = f[4] = f[5] = 1; calls = 0; sol_fix.assign(f.begin(), f.end());
  V r(9, 0.0); const V x0 = c.x; add(c, r); V x = c.x, w = v; if (ilu) { d2::CPreconditionerILU<D> P; P.SetPattern0(c.A); StepTime_InternalDynamicsILU(x, w, c.A, P, c.X, f, c.t, c.q, dt, c.la, c.mu, c.be, g, m, c.kc, c.cl, c.in); } else StepTime_InternalDynamics(x, w, c.A, c.X, f, c.t, c.q, dt, c.la, c.mu, c.be, g, m, c.kc, c.cl, c.in);
#ifdef VC_SYM
  ENSURES_L("one system is solved", calls == 1); for (unsigned i = 0; i < 9; ++i) { ENSURES_EQ_L("backward Euler: right-hand side", sol_b[i], f[i] ? 0 : m*g[i%3] - r[i] + m*v[i]/dt); for (unsigned j = 0; j < 9; ++j) ENSURES_EQ_L("backward Euler: M/dt^2 + K on the free degrees of freedom", sol_K[9*i+j], f[i] || f[j] ? spec::kron(i, j) : c.K[9*i+j] + spec::kron(i, j)*m/(dt*dt)); if (!f[i]) { ENSURES_EQ_L("positions move by the solution", x[i], x0[i] + sol_x[i]); ENSURES_EQ_L("velocity is the step over dt", w[i], sol_x[i]/dt); } }
#endif
  for (unsigned i = 0; i < 9; ++i) if (f[i]) ENSURES_EQ_L("fixed degrees of freedom stay", x[i], x0[i]); }
VC(time_step) { step(false); }
VC(time_step_ilu) { step(true); }
VC(half_step) { Cloth c; c.dim = 3; cloth(c, 0, false); V v(15); vc_reals(v.data(), 15, "v"); D g[3]; HAVOC(g); const D m = vc_real("m"), dt = vc_real("dt"); REQUIRES_POS(m, 1e-2); std::vector<int> f(15, 0); const unsigned s = vc_choose(3); if (s == 1) f[1] = f[6] = 1; if (s == 2) f[3] = f[4] = f[5] = 1; V r(15, 0.0), w = v; add(c, r); UpdateIntermidiateVelocity(w, c.x, c.X, f, c.t, c.q, dt, c.la, c.mu, c.be, g, m); for (unsigned i = 0; i < 15; ++i) if (f[i]) ENSURES_EQ_L("fixed degrees of freedom do not move", w[i], 0); else ENSURES_EQ_L("half a step of the force", w[i], v[i] + dt/2*(g[i%3] - r[i]/m)); }
// --- the square cloth
VC(square_cloth) { const int n = 1 + (int)vc_choose(4); const D size = vc_real("size"); REQUIRES_POS(size, 1e-2); V X; std::vector<int> f; U t, q; SetClothShape_Square(X, f, t, q, n, size); const unsigned np = (unsigned)((n+1)*(n+1)); ENSURES_L("sizes", X.size() == 3*np && f.size() == 3*np && t.size() == (unsigned)(6*n*n) && q.size() == 4u*(unsigned)(n*n + 2*n*(n-1)));
  for (unsigned k = 0; k < t.size(); k += 3) { ENSURES_L("corners", t[k] < np && t[k+1] < np && t[k+2] < np); ENSURES_EQ_L("half a cell, counter-clockwise", (X[3*t[k+1]]-X[3*t[k]])*(X[3*t[k+2]+1]-X[3*t[k]+1]) - (X[3*t[k+1]+1]-X[3*t[k]+1])*(X[3*t[k+2]]-X[3*t[k]]), size*size/(n*n)); } for (unsigned k = 2; k < X.size(); k += 3) ENSURES_EQ_L("flat", X[k], 0);
  unsigned inner = 0; for (unsigned i = 0; i < t.size(); i += 3) for (unsigned j = i+3; j < t.size(); j += 3) for (unsigned a = 0; a < 3; ++a) for (unsigned b = 0; b < 3; ++b) { const unsigned p = t[i+(a+1)%3], r = t[i+(a+2)%3]; if (t[j+(b+1)%3] != r || t[j+(b+2)%3] != p) continue; ++inner; unsigned c = 0; for (unsigned k = 0; k < q.size(); k += 4) c += ((q[k] == t[i+a] && q[k+1] == t[j+b]) || (q[k] == t[j+b] && q[k+1] == t[i+a])) && ((q[k+2] == p && q[k+3] == r) || (q[k+2] == r && q[k+3] == p)); ENSURES_L("one hinge per inner edge: opposite corners, then the edge", c == 1); } ENSURES_L("no other hinge", q.size() == 4*inner);
  for (unsigned i = 0; i < np; ++i) for (unsigned d = 0; d < 3; ++d) ENSURES_L("one side is fixed", f[3*i+d] == (i <= (unsigned)n ? 1 : 0)); for (unsigned i = 0; i <= (unsigned)n; ++i) ENSURES_EQ_L("the side x = 0", X[3*i], 0); }
