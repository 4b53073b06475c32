// native reading of the contracts: replay and random search
#include "vc.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <csetjmp>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include <ctime>
struct Res { std::string label; char kind; double a, b; };
struct Skip {};
static std::map<std::string, void (*)()> &tab() { static std::map<std::string, void (*)()> t; return t; }
void vc_register(const char *n, void (*f)()) { tab()[n] = f; }
static std::vector<double> g_in;     // given inputs
static size_t g_pos;
static std::vector<double> g_used;   // inputs actually consumed
static std::vector<char> g_kind;     // 'r' or 'c'
static std::vector<double> g_act;    // value handed out (perturbed)
static std::vector<Res> g_res;
static std::mt19937_64 g_rng;
static bool g_random = false;
static double g_pert = 0;
static int g_style = 0; static bool g_zero = false;
static bool g_isf = false;
// numeric derivatives
static int g_diffmode = 0;           // 0 plain record, 1 use table
static std::vector<double> g_fval; static std::vector<std::pair<const double *, double>> g_dq;
static std::vector<const double *> g_addr;
static std::vector<std::pair<size_t, double>> g_diffreq;   // (input idx, f)
static std::vector<double> g_difftab; static size_t g_diffpos;
static bool g_float = false; // the contract runs single-precision code
static double g_hscale = 1; static double g_rel = 0; static bool g_exact = false;
double vc_margin_(double m) { return g_exact ? 1e-12 : m; }
static double relof(bool diff) { if (g_rel > 0 && !diff && !g_float) return g_rel; return g_float ? (diff ? 2e-3 : 2e-4) : diff ? 1e-5 : 1e-8; }
void vc_float_exact() { g_float = true; }
static double gen() {
  std::normal_distribution<double> N(0, 1);
  std::uniform_real_distribution<double> U(-1, 1);
  int st = g_style; if (st == 9) st = g_rng() % 6;
  switch (st) {
    case 0: return N(g_rng);
    case 1: return U(g_rng);
    case 2: { int k = (int)(g_rng() % 5) - 2; return k; }
    case 3: { int k = (int)(g_rng() % 4); return k == 0 ? 0.0 : N(g_rng) * 3; }
    case 4: return N(g_rng) * std::pow(10.0, U(g_rng) * 2);
    default: { int k = (int)(g_rng() % 17) - 8; return k * 0.25; }
  }
}
static double next_real() {
  double v;
  if (g_pos < g_in.size()) v = g_in[g_pos]; else v = gen();
  ++g_pos;
  if (g_isf) v = (float) v;
  g_used.push_back(v); g_kind.push_back('r');
  if (g_pert != 0) { std::uniform_real_distribution<double> U(-1, 1); v += g_pert * U(g_rng) * (std::fabs(v) + (v == 0 ? (g_zero ? 1.0 : 0.0) : 1e-3)); }
  g_act.push_back(v); return v;
}
double vc_real(const char *) { return next_real(); }
float vc_realf(const char *) { g_isf = true; g_float = true; float r = (float)next_real(); g_isf = false; return r; }
// perturbation inputs live beside the inputs: ids >= ZB
static const size_t ZB = 1u << 30; static std::vector<const double *> g_zaddr; static long g_zpert = -1; static double g_zval = 0;
double vc_zero_(const double *p) { g_zaddr.push_back(p); return (long)g_zaddr.size() - 1 == g_zpert ? g_zval : 0.0; }
unsigned vc_choose(unsigned n) {
  unsigned v; if (g_pos < g_in.size()) v = (unsigned)g_in[g_pos]; else v = g_rng() % n;
  ++g_pos; g_used.push_back(v); g_act.push_back(v); g_kind.push_back('c'); return v;
}
void vc_assume_(bool b) { if (!b) throw Skip(); }
void vc_eq_(double a, double b, const char *l) { g_res.push_back({l, 'e', a, b}); }
void vc_ge_(double a, double b, const char *l) { g_res.push_back({l, 'g', a, b}); }
void vc_check_(bool c, const char *l) { g_res.push_back({l, 'c', c ? 1. : 0., 1.}); }
double vc_diff_(double f, double x, const double *px) {
  if (g_diffmode == 0) {
    size_t k = 0; bool found = false;
    for (size_t i = 0; i < g_zaddr.size(); ++i) if (g_zaddr[i] == px) { k = ZB + i; found = true; }
    if (!found) for (size_t i = 0; i < g_act.size(); ++i) if (g_kind[i] == 'r' && g_act[i] == x) { k = i; found = true; }
    if (!found) { fprintf(stderr, "vc_diff: not an input\n"); exit(3); }
    g_diffreq.push_back({k, f}); return 0;
  }
  if (g_diffmode == 2) { g_fval.push_back(f); return 0; }
  return g_diffpos < g_difftab.size() ? g_difftab[g_diffpos++] : 0;
}
struct Crash { std::string what; };
static sigjmp_buf g_jb; static volatile sig_atomic_t g_sig; static bool g_armed = false;
static char g_assertmsg[400];
extern "C" void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  snprintf(g_assertmsg, sizeof g_assertmsg, "%s", e);
  g_sig = -1; siglongjmp(g_jb, 1);
}
static void onsig(int s) { if (g_armed) { g_sig = s; siglongjmp(g_jb, 1); } _exit(4); }
// returns 0 ok, 1 skipped
static int run_once(void (*f)()) {
  g_pos = 0; g_used.clear(); g_act.clear(); g_kind.clear(); g_res.clear(); g_diffpos = 0; g_zaddr.clear();
  int r = 0;
  g_armed = true;
  if (sigsetjmp(g_jb, 1)) {
    g_armed = false; alarm(0);
    if (g_sig == -1) g_res.push_back({std::string("assertion in the code: ") + g_assertmsg, 'c', 0, 1});
    else if (g_sig == SIGALRM) g_res.push_back({"does not terminate (10 s)", 'c', 0, 1});
    else g_res.push_back({"crash: signal " + std::to_string((int)g_sig), 'c', 0, 1});
    return 0;
  }
  alarm(10);
  try { f(); } catch (Skip &) { r = 1; }
  catch (std::exception &e) { g_res.push_back({std::string("exception: ") + e.what(), 'c', 0, 1}); }
  alarm(0);
  g_armed = false;
  return r;
}
static int run(void (*f)()) {
  g_diffmode = 0; g_diffreq.clear();
  int r = run_once(f);
  if (r || g_diffreq.empty()) return r;
  std::vector<double> in = g_act; auto save = g_in, used = g_used;
  auto req = g_diffreq;
  g_difftab.assign(req.size(), 0);
  std::vector<size_t> ids; for (auto &q : req) ids.push_back(q.first);
  std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  double pert = g_pert; g_pert = 0;
  auto rngs = g_rng;
  for (size_t i : ids) {
    const bool z = i >= ZB; double h = g_hscale * 3e-4 * (1 + (z ? 0 : std::fabs(in[i])));
    std::vector<std::vector<double>> F;
    for (double s : {1., -1., 2., -2.}) {
      g_in = in; if (z) { g_zpert = (long)(i - ZB); g_zval = s * h; } else g_in[i] += s * h; g_fval.clear(); g_diffmode = 2;
      const int rc = run_once(f); g_zpert = -1; if (rc) { g_in = save; g_pert = pert; return 1; }
      F.push_back(g_fval);
    }
    for (size_t k = 0; k < req.size(); ++k) if (req[k].first == i && k < F[0].size() && k < F[1].size() && k < F[2].size() && k < F[3].size())
      g_difftab[k] = (8 * (F[0][k] - F[1][k]) - (F[2][k] - F[3][k])) / (12 * h);
  }
  g_in = in; g_diffmode = 1; (void) pert;
  r = run_once(f);
  g_in = save; g_pert = pert; g_diffmode = 0; g_used = used;
  return r;
}
static double defect(const Res &r, double rel) {
  if (r.kind == 'c') return r.a == 1. ? 0 : 1e300;
  double sc = 1 + std::fabs(r.a) + std::fabs(r.b);
  if (!(std::isfinite(r.a) && std::isfinite(r.b))) {
    if (r.a == r.b) return 0;
    return 1;
  }
  double d = r.kind == 'e' ? std::fabs(r.a - r.b) : r.b - r.a;
  return d > rel * sc ? d : 0;
}
static double gap(const Res &r) { return r.kind == 'e' ? std::fabs(r.a - r.b) : r.b - r.a; }
// a failure counts only when it exceeds what rounding can explain
static bool confirmed(void (*f)(), const std::vector<double> &in, std::string &out, bool verbose) {
  g_in = in; g_random = false; g_pert = 0;
  if (run(f)) { if (verbose) printf("SKIP\n"); return false; }
  auto base = g_res; auto inp = g_used; bool usesdiff = !g_diffreq.empty();
  double rel = relof(usesdiff);
  bool any = false;
  std::vector<size_t> bad;
  for (size_t i = 0; i < base.size(); ++i) if (defect(base[i], rel) > 0) bad.push_back(i);
  if (bad.empty()) { if (verbose) printf("PASS\n"); return false; }
  std::vector<double> noise(base.size(), 0); std::vector<int> stays(base.size(), 0); int nt = 0;
  for (int t = 0; t < 4; ++t) {
    g_in = inp; g_pert = g_float ? 3e-7 : 1e-11; g_zero = t & 1; g_rng.seed(77 + t);
    if (run(f)) continue;
    ++nt;
    auto &q = g_res;
    for (size_t i : bad) if (i < q.size() && q[i].label == base[i].label) {
      noise[i] = std::max(noise[i], std::fabs(gap(q[i]) - gap(base[i])));
      if (defect(q[i], rel) > 0) stays[i]++;
    }
  }
  g_pert = 0;
  std::vector<double> fdnoise(base.size(), 0);
  if (usesdiff) for (double hs : {1/3., 0.1}) { // a discrepancy that depends on the step of the finite difference is not one
    g_in = inp; g_hscale = hs; const int rc = run(f); g_hscale = 1; if (rc) return false;
    for (size_t i : bad) { if (i < g_res.size() && g_res[i].label == base[i].label && defect(g_res[i], rel) > 0) fdnoise[i] = std::max(fdnoise[i], std::fabs(gap(g_res[i]) - gap(base[i]))); else fdnoise[i] = 1e300; }
  }
  char buf[1000];
  for (size_t i : bad) {
    if (base[i].kind != 'c') {
      if (!(std::isfinite(base[i].a) && std::isfinite(base[i].b))) { if (nt < 4 || stays[i] < nt) continue; }
      else if (gap(base[i]) < 100 * noise[i] || gap(base[i]) < 10 * fdnoise[i]) continue;
    }
    any = true;
    snprintf(buf, sizeof buf, "FAIL %s | %s %.17g %.17g\n", base[i].label.c_str(), base[i].kind == 'e' ? "lhs,rhs" : base[i].kind == 'g' ? "expected >=" : "condition", base[i].a, base[i].b);
    out += buf;
    if (out.size() > 4000) break;
  }
  return any;
}
int main(int argc, char **argv) {
  static char altstack[1 << 17]; stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr); // a stack overflow is caught too
  for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT, SIGALRM}) { struct sigaction sa{}; sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER | SA_ONSTACK; sigaction(s, &sa, nullptr); }
  if (argc < 2 || !strcmp(argv[1], "list")) { for (auto &t : tab()) puts(t.first.c_str()); return 0; }
  auto it = tab().find(argv[1]);
  if (it == tab().end()) { fprintf(stderr, "no contract %s\n", argv[1]); return 3; }
  if (argc >= 3 && !strcmp(argv[2], "replay")) {
    std::vector<double> in; double v; FILE *fp = argc > 3 ? fopen(argv[3], "r") : stdin;
    while (fscanf(fp, "%lf", &v) == 1) in.push_back(v);
    g_rng.seed(1); g_exact = true; if (getenv("VC_REL")) g_rel = atof(getenv("VC_REL"));
    std::string o; bool bad = confirmed(it->second, in, o, true);
    fputs(o.c_str(), stdout);
    return bad ? 1 : 0;
  }
  if (argc >= 6 && !strcmp(argv[2], "search")) {
    long n = atol(argv[3]); unsigned long seed = strtoul(argv[4], nullptr, 10); double tl = atof(argv[5]);
    int maxhit = argc > 6 ? atoi(argv[6]) : 1;
    std::mt19937_64 top(seed * 7919 + std::hash<std::string>()(argv[1]));
    clock_t t0 = clock(); int hits = 0; long ran = 0, skipped = 0;
    for (long k = 0; k < n; ++k) {
      if ((double)(clock() - t0) / CLOCKS_PER_SEC > tl) break;
      g_rng.seed(top()); g_in.clear(); g_style = k % 8 == 7 ? 9 : k % 7; if (g_style > 5) g_style = 9; g_pert = 0;
      // plain pass first
      if (run(it->second)) { ++skipped; continue; }
      ++ran;
      double rel = relof(!g_diffreq.empty());
      bool bad = false; for (auto &r : g_res) if (defect(r, rel) > 0) bad = true;
      if (!bad) continue;
      auto in = g_used; std::string o;
      if (confirmed(it->second, in, o, false)) {
        printf("HIT"); for (double v : in) printf(" %.17g", v); printf("\n%s", o.c_str());
        if (++hits >= maxhit) break;
      }
    }
    printf("RAN %ld SKIPPED %ld\n", ran, skipped);
    return hits ? 1 : 0;
  }
  return 3;
}
