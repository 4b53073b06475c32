// Contract language.  The same contract text has two readings:
//  * VC_SYM   : compiled to LLVM IR together with the real delfem2 code and
//               interpreted by vcgen for ALL values of the inputs;
//  * native   : compiled and run on the real code on concrete inputs, used to
//               replay a refuted obligation (and for bounded stand-ins).
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef VC_SYM
extern "C" {
double vc_real(const char *);
float vc_realf(const char *);
unsigned vc_choose(unsigned);
void vc_assume_(bool);
void vc_eq_(double, double, const char *);
void vc_ge_(double, double, const char *);
void vc_check_(bool, const char *);
double vc_diff_(double, double, const double *);
double vc_zero_(const double *);
void vc_float_exact();
}
#define VC(name) extern "C" void vc_##name()
#else
double vc_real(const char *);
float vc_realf(const char *);
unsigned vc_choose(unsigned);
void vc_assume_(bool);
void vc_eq_(double, double, const char *);
void vc_ge_(double, double, const char *);
void vc_check_(bool, const char *);
double vc_diff_(double, double, const double *);
double vc_zero_(const double *);
void vc_float_exact();
void vc_register(const char *, void (*)());
struct vc_reg { vc_reg(const char *n, void (*f)()) { vc_register(n, f); } };
#define VC(name) static void vc_##name(); static vc_reg vc_reg_##name("vc_" #name, vc_##name); static void vc_##name()
#endif
#define REQUIRES(c) vc_assume_(c)
#define ENSURES(c) vc_check_((c), #c)
#define ENSURES_L(label, c) vc_check_((c), label)
#define ENSURES_EQ(a, b) vc_eq_((a), (b), #a " == " #b)
#define ENSURES_EQ_L(label, ...) vc_eq2_(label, __VA_ARGS__)
#define ENSURES_GE(a, b) vc_ge_((a), (b), #a " >= " #b)
#define ENSURES_GE_L(label, a, b) vc_ge_((a), (b), label)
static inline void vc_eq2_(const char *l, double a, double b) { vc_eq_(a, b, l); }
// perturbation inputs: zero, there to be differentiated with respect to
#define ZEROS(arr) vc_zeros_(&(arr)[0], (int)(sizeof(arr) / sizeof((arr)[0])))
static inline void vc_zeros_(double *p, int n) { for (int i = 0; i < n; ++i) p[i] = vc_zero_(p + i); }
#define VC_DIFF(f, x) vc_diff_((f), (x), &(x))

static inline void vc_reals(double *p, int n, const char *name) { for (int i = 0; i < n; ++i) p[i] = vc_real(name); }
static inline void vc_realsf(float *p, int n, const char *name) { for (int i = 0; i < n; ++i) p[i] = vc_realf(name); }
// non-degeneracy: in the proof x > 1e-12 (x != 0); the random search, which
// compares floating-point results, keeps a distance m from the degenerate case
#ifdef VC_SYM
#define REQUIRES_NONZERO(x) vc_assume_((x) != 0)
#define REQUIRES_POS(x, m) vc_assume_((x) > 1e-12)
#else
double vc_margin_(double m);
#define REQUIRES_NONZERO(x) vc_assume_((x) > vc_margin_(1e-3) || (x) < -vc_margin_(1e-3))
#define REQUIRES_POS(x, m) vc_assume_((x) > vc_margin_(m))
#endif
#define HAVOC(arr) vc_reals(&(arr)[0], (int)(sizeof(arr) / sizeof((arr)[0])), #arr)
template<int N> static inline void vc_same(const double *a, const double *b, const char *label) {
  for (int i = 0; i < N; ++i) vc_eq_(a[i], b[i], label);
}
