// C23: elementary functions. Domain and special values are proved bit-precisely for every float; the accuracy contracts are evaluated natively
// (bounded stand-in: transcendental functions are outside the reach of the provers).
#include "vc.h"
#include <include/ffmath.hpp>
#include <float.h>
#if VC_NATIVE
#include <cmath>
#include <cstdio>
#endif
using namespace qlibs;
static bool nan_(float x){ return x != x; }
static float inf_(){ return vc_frombits(0x7F800000u); }
//@ harness roots prop=C23 mode=fp plan=abs+z3+cvc5
VC_HARNESS(roots){
    const float x = vc_f32("x"); vc_assume(x < 0.0f || nan_(x)); vc_assert(nan_(ffmath::sqrt(x)) && nan_(ffmath::rSqrt(x)), "negative or not a number"); vc_assert(ffmath::sqrt(0.0f) == 0.0f && ffmath::rSqrt(0.0f) == inf_() && ffmath::rSqrt(-0.0f) == inf_(), "zero"); vc_assert(ffmath::sqrt(inf_()) == inf_() && ffmath::rSqrt(inf_()) == 0.0f, "infinity");
    vc_assert(ffmath::rCbrt(0.0f) == inf_() && ffmath::cbrt(0.0f) == 0.0f, "cubic root of zero");
}
//@ harness logs prop=C23 mode=fp plan=abs+z3+cvc5
VC_HARNESS(logs){
    const float x = vc_f32("x"); vc_assume(x < 0.0f || nan_(x)); vc_assert(nan_(ffmath::log2(x)) && nan_(ffmath::log(x)) && nan_(ffmath::log10(x)), "negative or not a number");
    vc_assert(ffmath::log2(0.0f) == -inf_() && ffmath::log(0.0f) == -inf_() && ffmath::log10(-0.0f) == -inf_() && ffmath::log1p(-1.0f) == -inf_(), "pole"); vc_assert(ffmath::log2(inf_()) == inf_() && ffmath::log(inf_()) == inf_(), "infinity"); vc_assert(ffmath::log2(1.0f) == 0.0f && ffmath::log(1.0f) == 0.0f && ffmath::log10(1.0f) == 0.0f, "one");
}
static float pow2(int32_t n){ return vc_frombits(static_cast<uint32_t>(n + 127) << 23); }
//@ harness binary prop=C23 mode=fp
VC_HARNESS(binary){ const int32_t n = vc_i32("n"); vc_assume(n >= -125 && n <= 127); vc_assert(ffmath::exp2(static_cast<float>(n)) == pow2(n), "whole powers of two are exact"); vc_assert(ffmath::log2(pow2(n)) == static_cast<float>(n), "logarithms of powers of two are exact"); }
//@ harness expo prop=C23 mode=fp plan=abs+z3+cvc5
VC_HARNESS(expo){ const float x = vc_f32("x"); const float y = ffmath::exp2(x); if (nan_(x)) vc_assert(nan_(y), "not a number"); if (x > 128.0f) vc_assert(y == inf_(), "overflow"); if (x <= -126.0f) vc_assert(y == 0.0f, "underflow"); vc_assert(ffmath::exp(0.0f) == 1.0f && ffmath::exp10(0.0f) == 1.0f && ffmath::expm1(0.0f) == 0.0f, "zero"); vc_assert(ffmath::exp(100.0f) == inf_() && ffmath::exp(-100.0f) == 0.0f && ffmath::exp10(39.0f) == inf_(), "far out"); }
//@ harness arcs prop=C23 mode=fp plan=abs+z3+cvc5
VC_HARNESS(arcs){
    const float x = vc_f32("x"); if (x > 1.0f || x < -1.0f) { vc_assert(nan_(ffmath::asin(x)) && nan_(ffmath::acos(x)), "arc sine and cosine need [-1,1]"); vc_assert(nan_(ffmath::atanh(x)) || x > FLT_MAX || x < -FLT_MAX, "atanh needs [-1,1]"); } if (x < 1.0f) vc_assert(nan_(ffmath::acosh(x)), "acosh needs at least 1");
    vc_assert(ffmath::atanh(1.0f) == inf_() && ffmath::atanh(-1.0f) == -inf_(), "poles of atanh"); vc_assert(ffmath::atanh(0.0f) == 0.0f && ffmath::asinh(0.0f) == 0.0f && ffmath::tanh(0.0f) == 0.0f && ffmath::sinh(0.0f) == 0.0f && ffmath::cosh(0.0f) == 1.0f && ffmath::atan(0.0f) == 0.0f && ffmath::asin(0.0f) == 0.0f && ffmath::sin(0.0f) == 0.0f && ffmath::erf(0.0f) == 0.0f, "zero");
}
//@ harness small prop=C23 mode=fp
VC_HARNESS(small){ const float x = vc_f32in("x", -0.006f, 0.006f); vc_assert(ffmath::sin(x) == x, "small angles"); }
//@ harness planes prop=C23 mode=fp plan=abs+z3+cvc5
VC_HARNESS(planes){ const float x = vc_f32("x"), y = vc_f32("y"); const bool fx = vc_finite(x), fy = vc_finite(y); const float h = ffmath::hypot(x, y); if (!fx || !fy) vc_assert((!nan_(x) && !fx) || (!nan_(y) && !fy) ? h == inf_() : nan_(h), "infinite or not a number"); vc_assert(ffmath::hypot(0.0f, 0.0f) == 0.0f, "zero"); }
//@ harness facts prop=C23 mode=fp
VC_HARNESS(facts){
    const float x = vc_f32("x"); const float y = ffmath::factorial(x); if (x > 34.0f) vc_assert(y == inf_(), "too large"); else if (x >= 0.0f) { double p = 1.0; const int n = static_cast<int>(x); for (int i = 2; i <= 34; ++i) if (i <= n) p = p*static_cast<double>(i); const double d = static_cast<double>(y) - p; vc_assert(d <= p*1e-6 && d >= -p*1e-6, "product of the numbers up to x"); } else vc_assert(nan_(y), "negative");
}
#if VC_NATIVE
typedef float (*F1)(float); typedef double (*D1)(double);
static void hit(const char* n, float x, float y, double r){ static char b[160]; snprintf(b, sizeof b, "%s(%.9g) = %.9g, expected %.9g", n, x, y, r); vc_assert(false, b); }
static void near_(const char* n, float x, float y, double r, double a, double rel){ if (!(std::fabs(double(y) - r) <= a + rel*std::fabs(r)) && !(double(y) == r)) hit(n, x, y, r); }
// 256 floats per evaluation: half of them spread over all bit patterns, half over the interval
static void sweep(const char* n, F1 f, D1 d, double lo, double hi, double a, double rel){
    const uint32_t b = vc_u32("b")*2654435761u;
    for (uint32_t k = 0; k < 256; ++k) { const uint32_t u = b + k*0x9E3779B1u; const double t = (u ^ (u >> 15))/4294967296.0; float x = (k & 1u) ? vc_frombits(u) : (k & 2u) ? float(lo + (hi - lo)*t) : float((lo < -1e3 ? -1e3 : lo) + ((hi > 1e3 ? 1e3 : hi) - (lo < -1e3 ? -1e3 : lo))*t); if (x >= lo && x <= hi) near_(n, x, f(x), d(double(x)), a, rel); }
    near_(n, float(lo), f(float(lo)), d(double(float(lo))), a, rel); near_(n, float(hi), f(float(hi)), d(double(float(hi))), a, rel);
}
static double rcp(double x){ return 1.0/x; }
static double rsq(double x){ return 1.0/std::sqrt(x); }
static double rcb(double x){ return 1.0/std::cbrt(x); }
static double e10(double x){ return std::pow(10.0, x); }
#define SW(h, fn, ref, lo, hi, a, rel) VC_SEARCH(h){ sweep(#fn, ffmath::fn, ref, lo, hi, a, rel); }
SW(aRecip, recip, rcp, 1e-37, 1e37, 0, 4e-3) SW(aRecipN, recip, rcp, -1e37, -1e-37, 0, 4e-3)
SW(aSqrt, sqrt, std::sqrt, 0, 3.4e38, 0, 3e-6) SW(aRsqrt, rSqrt, rsq, 1e-44, 3.4e38, 0, 2.5e-3)
SW(aCbrt, cbrt, std::cbrt, 1e-37, 3.4e38, 0, 5e-5) SW(aCbrtN, cbrt, std::cbrt, -3.4e38, -1e-37, 0, 5e-5) SW(aRcbrt, rCbrt, rcb, 1e-37, 3.4e38, 0, 1e-6) SW(aRcbrtN, rCbrt, rcb, -3.4e38, -1e-37, 0, 1e-6)
SW(aSin, sin, std::sin, -1000, 1000, 2e-3, 0) SW(aCos, cos, std::cos, -1000, 1000, 2e-3, 0) SW(aTan, tan, std::tan, -1.5, 1.5, 2e-3, 0.015)
SW(aAsin, asin, std::asin, -1, 1, 0.015, 0) SW(aAcos, acos, std::acos, -1, 1, 0.015, 0) SW(aAtan, atan, std::atan, -3.4e38, 3.4e38, 0.008, 0)
SW(aExp2, exp2, std::exp2, -125.9, 127.99, 0, 1.5e-5) SW(aExp, exp, std::exp, -87, 88.7, 0, 1.5e-5) SW(aExp10, exp10, e10, -37.5, 38.5, 0, 2e-5) SW(aExpm1, expm1, std::expm1, -87, 88.7, 1e-6, 1.5e-5)
SW(aLog2, log2, std::log2, 1e-44, 3.4e38, 1e-6, 5e-7) SW(aLog, log, std::log, 1e-44, 3.4e38, 1e-6, 5e-7) SW(aLog10, log10, std::log10, 1e-44, 3.4e38, 1e-6, 5e-7) SW(aLog1p, log1p, std::log1p, -0.999, 1e38, 1e-6, 5e-7)
SW(aSinh, sinh, std::sinh, -87, 87, 1e-6, 1.5e-5) SW(aCosh, cosh, std::cosh, -87, 87, 0, 1.5e-5) SW(aTanh, tanh, std::tanh, -3.4e38, 3.4e38, 5e-7, 0)
SW(aAsinh, asinh, std::asinh, -1e18, 1e18, 1e-5, 0) SW(aAcosh, acosh, std::acosh, 1, 1e18, 2e-4, 1e-4) SW(aAtanh, atanh, std::atanh, -0.999, 0.999, 2e-6, 0) SW(aErf, erf, std::erf, -3.4e38, 3.4e38, 0.025, 0) SW(aErfc, erfc, std::erfc, -3.4e38, 3.4e38, 0.025, 0)
VC_SEARCH(aPow){ const float b = vc_f32in("b", 0.01f, 20.0f), e = vc_f32in("e", -8.0f, 8.0f); near_("pow", b, ffmath::pow(b, e), std::pow(double(b), double(e)), 0, 3e-5); }
VC_SEARCH(aAtan2){ const float y = vc_f32("y"), x = vc_f32("x"); vc_assume(vc_finite(x) && vc_finite(y) && (x > 1e-30f || x < -1e-30f) && (y > 1e-30f || y < -1e-30f)); near_("atan2", y, ffmath::atan2(y, x), std::atan2(double(y), double(x)), 0.008, 0); }
VC_SEARCH(aAxis){ const float y = vc_f32("y"); vc_assume(vc_finite(y) && (y > 1e-30f || y < -1e-30f)); near_("atan2 on an axis", y, ffmath::atan2(y, 0.0f), std::atan2(double(y), 0.0), 0.008, 0); near_("atan2 on an axis", y, ffmath::atan2(0.0f, y), std::atan2(0.0, double(y)), 0.008, 0); }
VC_SEARCH(aHypot){ const float x = vc_f32("x"), y = vc_f32("y"); vc_assume(vc_finite(x) && vc_finite(y)); const double r = std::hypot(double(x), double(y)); vc_assume(r < 3.4e38 && (r > 1e-37 || r == 0.0)); near_("hypot", x, ffmath::hypot(x, y), r, 0, 5e-6); }
#endif
