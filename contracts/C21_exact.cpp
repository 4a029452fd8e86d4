// C21: the exact helpers of ffmath (classification, sign, rounding, decomposition, modulo, interpolation), bit-precise over every float.
#include "vc.h"
#include "real_stubs.h"
#include <include/ffmath.hpp>
#include <float.h>
using namespace qlibs;
using C = ffmath::classification;
static float mag(float x){ return vc_frombits(vc_bits(x) & 0x7FFFFFFFu); }
static bool isnan_(float x){ return x != x; }
static bool fin(float x){ return mag(x) <= FLT_MAX; }
static bool same(float a, float b){ return a == b || (isnan_(a) && isnan_(b)); }
static double p2(int32_t n){ const uint64_t b = static_cast<uint64_t>(static_cast<int64_t>(n) + 1023) << 52; double d; memcpy(&d, &b, 8); return d; }
//@ harness classes prop=C21 mode=fp
VC_HARNESS(classes){
    const float x = vc_f32("x"); const C c = ffmath::classify(x); const float m = mag(x);
    const C e = isnan_(x) ? C::FFP_NAN : (m > FLT_MAX) ? C::FFP_INFINITE : (m == 0.0f) ? C::FFP_ZERO : (m < FLT_MIN) ? C::FFP_SUBNORMAL : C::FFP_NORMAL;
    vc_assert(c == e, "classification"); vc_assert(ffmath::isNan(x) == (e == C::FFP_NAN) && ffmath::isInf(x) == (e == C::FFP_INFINITE) && ffmath::isNormal(x) == (e == C::FFP_NORMAL) && ffmath::isFinite(x) == (e != C::FFP_NAN && e != C::FFP_INFINITE), "predicates");
    vc_assert(isnan_(ffmath::getNan()), "nan"); vc_assert(ffmath::getInf() > FLT_MAX, "infinity");
}
//@ harness signs prop=C21 mode=fp
VC_HARNESS(signs){
    const float x = vc_f32("x"), y = vc_f32("y"); vc_assert(vc_bits(ffmath::absf(x)) == (vc_bits(x) & 0x7FFFFFFFu), "absolute value");
    const float s = ffmath::sign(x); vc_assert(isnan_(x) ? isnan_(s) : (s == ((x > 0.0f) ? 1.0f : (x < 0.0f) ? -1.0f : 0.0f)), "sign"); vc_assert(vc_bits(ffmath::copysign(x, y)) == ((vc_bits(x) & 0x7FFFFFFFu) | (vc_bits(y) & 0x80000000u)), "magnitude of the first, sign of the second");
}
//@ harness equal prop=C21 mode=fp
VC_HARNESS(equal){
    const float a = vc_f32("a"), b = vc_f32("b"), t = vc_f32("t"); const float d = a - b; vc_assert(ffmath::isEqual(a, b, t) == (mag(d) <= mag(t)), "within the tolerance"); vc_assert(ffmath::isEqual(a, b) == (mag(d) <= FLT_MIN), "default tolerance"); vc_assert(!fin(a) || ffmath::isEqual(a, a), "reflexive");
}
static float whole(float x){ return static_cast<float>(static_cast<int32_t>(x)); }
static const float BIG = 8388608.0f;
//@ harness trunc prop=C21 mode=fp
VC_HARNESS(trunc){
    const float x = vc_f32("x"); const float r = ffmath::trunc(x), f = ffmath::frac(x); if (mag(x) < BIG) { vc_assert(r == whole(x), "towards zero"); vc_assert(f == x - whole(x) && mag(f) < 1.0f, "fraction"); } else vc_assert(same(r, x), "already whole");
}
//@ harness floor prop=C21 mode=fp
VC_HARNESS(floor){ const float x = vc_f32("x"); const float r = ffmath::floor(x); if (mag(x) < BIG) { const float t = whole(x); vc_assert(r == ((t > x) ? t - 1.0f : t), "largest whole number not above"); } else vc_assert(same(r, x), "already whole"); }
//@ harness ceil prop=C21 mode=fp
VC_HARNESS(ceil){ const float x = vc_f32("x"); const float r = ffmath::ceil(x); if (mag(x) < BIG) { const float t = whole(x); vc_assert(r == ((t < x) ? t + 1.0f : t), "smallest whole number not below"); } else vc_assert(same(r, x), "already whole"); }
//@ harness rounding prop=C21 mode=fp
VC_HARNESS(rounding){ const float x = vc_f32("x"); const float r = ffmath::rounding(x); if (mag(x) < BIG) { const float t = whole(x), d = x - t; vc_assert(r == ((d >= 0.5f) ? t + 1.0f : (d <= -0.5f) ? t - 1.0f : t), "nearest, halves away from zero"); } else vc_assert(same(r, x), "already whole"); }
//@ harness next prop=C21 mode=fp
VC_HARNESS(next){
    const float x = vc_f32("x"), y = vc_f32("y"), z = vc_f32("z"); const float r = ffmath::nextAfter(x, y);
    if (isnan_(x) || isnan_(y)) vc_assert(isnan_(r), "nan"); else if (x == y) vc_assert(r == y, "nothing between equals"); else if (x < y) { vc_assert(r > x && r <= y, "towards the second"); vc_assert(!(x < z && z < r), "nothing in between"); } else { vc_assert(r < x && r >= y, "towards the second"); vc_assert(!(r < z && z < x), "nothing in between"); }
}
//@ harness parts prop=C21 mode=fp
VC_HARNESS(parts){
    const float x = vc_f32("x"); vc_assume(fin(x)); int32_t e = 77; const float y = ffmath::rexp(x, &e); if (x == 0.0f) vc_assert(y == 0.0f && e == 0, "zero"); else { vc_assert(mag(y) >= 0.5f && mag(y) < 1.0f, "fraction"); vc_assert(e >= -148 && e <= 128, "exponent"); vc_assert(static_cast<double>(y)*p2(e) == static_cast<double>(x), "fraction times power of two"); }
}
#define LD(N, n) VC_HARNESS(N){ const float x = vc_f32("x"); const int32_t k = n; const float r = ffmath::ldexp(x, k); const float e = static_cast<float>(static_cast<double>(x)*p2(k)); vc_assert(same(r, e), "times a power of two, rounded once"); }
//@ harness ld1 prop=C21 mode=fp
LD(ld1, 3)
//@ harness ld2 prop=C21 mode=fp
LD(ld2, -5)
//@ harness ld3 prop=C21 mode=fp
LD(ld3, 130)
//@ harness ld4 prop=C21 mode=fp
LD(ld4, -130)
//@ harness ld5 prop=C21 mode=fp
LD(ld5, 300)
//@ harness ld6 prop=C21 mode=fp
LD(ld6, -300)
VC_SEARCH(ldAll){ const float x = vc_f32("x"); const int32_t k = vc_i32("k") % 400; vc_assert(same(ffmath::ldexp(x, k), static_cast<float>(static_cast<double>(x)*p2(k))), "times a power of two, rounded once"); }
//@ harness mids prop=C21 mode=fp
VC_HARNESS(mids){
    const float a = vc_f32("a"), b = vc_f32("b"); vc_assume(fin(a) && fin(b)); const float m = ffmath::midpoint(a, b); vc_assert(m >= ((a < b) ? a : b) && m <= ((a < b) ? b : a), "between both");
}
//@ harness extremes prop=C21 mode=fp
VC_HARNESS(extremes){
    const float a = vc_f32("a"), b = vc_f32("b"), c = vc_f32("c"); vc_assume(!isnan_(a) && !isnan_(b) && !isnan_(c)); const float h = ffmath::Max(a, b, c), l = ffmath::Min(a, b, c); vc_assert(h >= a && h >= b && h >= c && (h == a || h == b || h == c), "largest"); vc_assert(l <= a && l <= b && l <= c && (l == a || l == b || l == c), "smallest");
    const int i = vc_i32("i"), j = vc_i32("j"); vc_assert(ffmath::Max(i, j) == ((i > j) ? i : j) && ffmath::Min(i, j) == ((i < j) ? i : j), "whole numbers");
}
//@ harness coerce prop=C21 mode=fp
VC_HARNESS(coerce){
    const float x = vc_f32("x"), lo = vc_f32("lo"), hi = vc_f32("hi"); vc_assume(lo <= hi); float v = x; const bool in = ffmath::inRangeCoerce(v, lo, hi); vc_assert(in == (x >= lo && x <= hi), "tells whether it was inside"); vc_assert(v == ((x >= lo && x <= hi) ? x : (x > hi) ? hi : lo), "limited to the range");
}
// modulo: whatever the quotient, the result is zero or has the sign of the divisor and is smaller than it
//@ harness modR prop=C21 mode=fp plan=abs+z3+cvc5+z3long
VC_HARNESS(modR){
    const float x = vc_f32("x"), y = vc_f32("y"); vc_assume(fin(x) && fin(y)); const float m = ffmath::mod(x, y); if (y == 0.0f) vc_assert(m == x, "divisor zero"); else if (!isnan_(m)) vc_assert(m == 0.0f || ((y > 0.0f) ? (m > 0.0f && m <= y) : (m < 0.0f && m >= y)), "zero or with the sign of the divisor, and no larger");
}
//@ harness remZ prop=C21 mode=fp
VC_HARNESS(remZ){ const float x = vc_f32("x"), y = vc_f32("y"); vc_assert(isnan_(ffmath::rem(x, 0.0f)) && isnan_(ffmath::rem(x, -0.0f)), "divisor zero"); vc_assume(fin(y) && y != 0.0f); vc_assert(ffmath::rem(0.0f, y) == 0.0f, "dividend zero"); }
//@ harness wrapD prop=C21 mode=fp plan=abs+z3+cvc5+z3long
VC_HARNESS(wrapD){ const float x = vc_f32("x"); vc_assume(mag(x) <= 1.0e30f); const float a = ffmath::wrapTo360(x), b = ffmath::wrapTo180(x); vc_assert(a >= 0.0f && a <= 360.0f, "0 to 360"); vc_assert(b >= -180.0f && b <= 180.0f, "-180 to 180"); }
//@ harness wrapR prop=C21 mode=fp plan=abs+z3+cvc5+z3long
VC_HARNESS(wrapR){ const float x = vc_f32("x"); vc_assume(mag(x) <= 1.0e30f); const float a = ffmath::wrapTo2Pi(x), b = ffmath::wrapToPi(x); vc_assert(a >= 0.0f && a <= ffmath::FFP_2PI, "0 to 2 pi"); vc_assert(b >= -ffmath::FFP_PI && b <= ffmath::FFP_PI, "-pi to pi"); }
// congruence, with float arithmetic as real arithmetic and floor, trunc by the contracts above
#ifdef QVC
extern "C" {
__attribute__((used)) float ST_floor(float x){ const float r = vc_uff1("floor", x); vc_assume(r <= x && x < r + 1.0f); return r; }
__attribute__((used)) float ST_trunc(float x){ const float r = vc_uff1("trunc", x); vc_assume((x >= 0.0f) ? (r <= x && x < r + 1.0f && r >= 0.0f) : (r >= x && x > r - 1.0f && r <= 0.0f)); return r; }
__attribute__((used)) int ST_zero(float x){ return (x == 0.0f) ? 0 : 2; }
}
static float FL(float x){ return vc_uff1("floor", x); }
static float TR(float x){ return vc_uff1("trunc", x); }
#else
static float FL(float x){ return __builtin_floorf(x); }
static float TR(float x){ return __builtin_truncf(x); }
#endif
//@ harness modV prop=C21 mode=real stubset=real stub=qlibs::ffmath::floor=>ST_floor,qlibs::ffmath::classify=>ST_zero,absolute=>ST_absf
VC_HARNESS(modV){ const float x = vc_f32in("x", -1000.0f, 1000.0f), y = vc_f32in("y", -100.0f, 100.0f); vc_assume(y > 0.5f || y < -0.5f); const float m = ffmath::mod(x, y);
#ifdef QVC
    vc_assert(m == x - y*FL(x/y), "the dividend less whole multiples of the divisor");
#else
    const float e = x - y*FL(x/y); const double d = static_cast<double>(m) - e; vc_assert(mag(static_cast<float>(d)) < 1e-3f || mag(static_cast<float>(mag(static_cast<float>(d)) - mag(y))) < 1e-3f, "the dividend less whole multiples of the divisor");
#endif
}
//@ harness remV prop=C21 mode=real stubset=real stub=qlibs::ffmath::trunc=>ST_trunc,qlibs::ffmath::classify=>ST_zero
VC_HARNESS(remV){ const float x = vc_f32in("x", -1000.0f, 1000.0f), y = vc_f32in("y", -100.0f, 100.0f); vc_assume(y > 0.5f || y < -0.5f); vc_close(ffmath::rem(x, y), x - y*TR(x/y), 1000.0, "the dividend less whole multiples of the divisor, towards zero"); }
