// C06: Q16.16 conversions, rounding, square root domain, angle wrapping and text output.
#include "vc.h"
#include <include/fp16.hpp>
using namespace qlibs;
static const int32_t OVF = INT32_MIN;
static inline fp16 mk(int32_t raw){ fp16 x; memcpy(static_cast<void*>(&x), &raw, 4); return x; }
static inline int32_t clampOvf(int64_t r){ return (r > INT32_MAX || r < -static_cast<int64_t>(INT32_MAX)) ? OVF : static_cast<int32_t>(r); }

//@ harness ints prop=C06
VC_HARNESS(ints){
    const int32_t i = vc_i32("i"); vc_assume(i >= -32767 && i <= 32767);
    const fp16 x = fp16::from(static_cast<int>(i));
    vc_assert(x.raw() == i*65536, "from(int) is exact");
    vc_assert(fp16::toInt(x) == i, "toInt inverts from(int)");
    fp16 y; y = static_cast<int>(i); vc_assert(y.raw() == i*65536, "assignment from int is exact");
}
//@ harness toInt prop=C06
VC_HARNESS(toInt){
    const int32_t a = vc_i32("a");
    const int64_t m = (a < 0) ? -static_cast<int64_t>(a) : a; const int64_t r = (m + 32768)/65536;
    vc_assert(fp16::toInt(mk(a)) == static_cast<int>((a < 0) ? -r : r), "toInt rounds to the nearest integer");
}
//@ harness fromFloat prop=C06 budget=120
VC_HARNESS(fromFloat){
    const float f = vc_f32("f"); vc_assume(f > -32768.0f && f < 32768.0f);
    const fp16 x = fp16::from(f);
    const double e = static_cast<double>(x.raw()) - static_cast<double>(f)*65536.0;
    vc_assert(e <= 1.0 && e >= -1.0, "from(float) is within one unit of the last place");
    fp16 y; y = f; vc_assert(y.raw() == x.raw(), "assignment from float converts the same way");
}
//@ harness fromDouble prop=C06 budget=120
VC_HARNESS(fromDouble){
    const int32_t a = vc_i32("a");
    const double d = static_cast<double>(a)/65536.0;
    vc_assert(fp16::toDouble(mk(a)) == d, "toDouble is exact");
    vc_assert(fp16::from(d).raw() == a, "from(double) inverts toDouble");
    fp16 y; y = d; vc_assert(y.raw() == a, "assignment from double converts the same way");
}
//@ harness toFloat prop=C06 budget=120
VC_HARNESS(toFloat){
    const int32_t a = vc_i32("a"); const float f = fp16::toFloat(mk(a));
    vc_assert(vc_same(f, static_cast<float>(a)*0.0000152587890625f), "toFloat is the nearest float");
    if (a > -16777217 && a < 16777217) vc_assert(fp16::from(f).raw() <= a + 1 && fp16::from(f).raw() >= a - 1, "float round trip within one unit");
}
//@ harness roundings prop=C06
VC_HARNESS(roundings){
    const int32_t a = vc_i32("a"); const fp16 x = mk(a);
    const int64_t fl = static_cast<int64_t>(a) - (a & 0xFFFF);
    vc_assert(fp16::floor(x).raw() == fl, "floor is the largest integer not above x");
    vc_assert(fp16::ceil(x).raw() == (((a & 0xFFFF) != 0) ? clampOvf(fl + 65536) : static_cast<int32_t>(fl)), "ceil is the smallest integer not below x, or overflow");
    vc_assert(fp16::absolute(x).raw() == clampOvf((a < 0) ? -static_cast<int64_t>(a) : a), "absolute value");
    const int32_t r = fp16::rounding(x).raw();
    if (a != OVF) {
        const int64_t up = static_cast<int64_t>(a) + 32768;
        if (up > INT32_MAX) vc_assert(r == OVF, "rounding past the maximum is overflow");
        else { const int64_t e = static_cast<int64_t>(r) - a; vc_assert((r & 0xFFFF) == 0 && e <= 32768 && e >= -32768, "rounding is the nearest integer"); }
    }
}
// whole turns that bring a into (-h, h]
static int64_t turns(int64_t a, int64_t h, int64_t t){ return (a > h) ? (a - h + t - 1)/t : (a <= -h) ? -((-a - h + t)/t) : 0; }
// angle wrapping: in range and congruent modulo one turn
static void wrapPiOf(const int32_t a){
    const int32_t r = fp16::wrapToPi(mk(a)).raw();
    vc_assert(r >= -205888 && r <= 205888, "wrapToPi lies within one half turn");
    vc_assert(a > 205887 || a < -205887 || r == a, "an angle already in range is unchanged");
    vc_assert((static_cast<int64_t>(a) - r) % 411775 == 0, "wrapToPi differs by whole turns");
}
//@ harness wrapPiPos prop=C06 cut=qlibs::fp16::wrapToPi(int) budget=120
VC_HARNESS(wrapPiPos){ const int32_t a = vc_i32("a"); vc_assume(a >= 0); wrapPiOf(a); }
//@ harness wrapPiNeg prop=C06 cut=qlibs::fp16::wrapToPi(int) budget=120
VC_HARNESS(wrapPiNeg){ const int32_t a = vc_i32("a"); vc_assume(a < 0 && a != OVF); wrapPiOf(a); }
//@ harness wrap180 prop=C06 cut=qlibs::fp16::wrapTo180(int) budget=120
VC_HARNESS(wrap180){
    const int32_t a = vc_i32("a"); vc_assume(a != OVF);
    const int32_t r = fp16::wrapTo180(mk(a)).raw();
    vc_assert(r >= -180*65536 && r <= 180*65536, "wrapTo180 lies within one half turn");
    vc_assert(a > 180*65536 || a < -180*65536 || r == a, "an angle already in range is unchanged");
    vc_assert((a >= -180*65536 && a <= 180*65536) || r == a - 360ll*65536*turns(a, 180*65536, 360*65536), "wrapTo180 differs by whole turns");
}
//@ harness domains prop=C06 unroll=80
VC_HARNESS(domains){
    const int32_t a = vc_i32("a"); vc_assume(a < 0);
    vc_assert(fp16::sqrt(mk(a)).raw() == OVF, "sqrt of a negative value is overflow");
    vc_assert(fp16::log(mk(a)).raw() == OVF && fp16::log(mk(0)).raw() == OVF, "log of a non-positive value is overflow");
    vc_assert(fp16::log2(mk(a)).raw() == OVF && fp16::log2(mk(0)).raw() == OVF, "log2 of a non-positive value is overflow");
    vc_assert(fp16::sqrt(mk(0)).raw() == 0, "sqrt(0) is 0");
    vc_assert(fp16::exp(mk(0)).raw() == 65536 && fp16::sinh(mk(0)).raw() == 0 && fp16::cosh(mk(0)).raw() == 65536 && fp16::tanh(mk(0)).raw() == 0, "values at zero");
    vc_assert(fp16::sqrt(mk(65536*4)).raw() == 65536*2, "sqrt(4) is 2");
    vc_assert(fp16::pow(mk(-2*65536), mk(0)).raw() == 65536, "x^0 is 1");
    vc_assert(fp16::pow(mk(-2*65536), mk(3*65536)).raw() == -8*65536, "(-2)^3 is -8");
    vc_assert(fp16::pow(mk(-2*65536), mk(-2*65536)).raw() > 0, "an even power is positive");
    const int32_t big = vc_i32("big"); vc_assume(big >= 681391);
    vc_assert(fp16::exp(mk(big)).raw() == INT32_MAX, "exp saturates");
    if (big != OVF) vc_assert(fp16::exp(mk(-big)).raw() == 0, "exp of a large negative value is 0");
    const int32_t out = vc_i32("out"); vc_assume(out > 65536 || out < -65536);
    vc_assert(fp16::asin(mk(out)).raw() == 0, "asin outside [-1,1] is 0");
    const int32_t six = vc_i32("six"); vc_assume(six > 425984);
    vc_assert(fp16::tanh(mk(six)).raw() == 65536 && fp16::tanh(mk(-six)).raw() == -65536, "tanh saturates at one");
}
// text: sign, integer digits, '.', exactly `decimals` digits (0..5), rounded to nearest; at most 13 bytes written
template<int DEC> static void asciiOf(const int32_t a, int decArg, const bool digitsToo){
    char buf[13]; for (int i = 0; i < 13; ++i) buf[i] = 'x';
    vc_assert(fp16::toASCII(mk(a), buf, decArg) == buf, "toASCII returns the buffer");
    if (a == OVF) { vc_assert(buf[0] == 'o' && buf[1] == 'v' && buf[2] == 'e' && buf[3] == 'r' && buf[4] == 'f' && buf[5] == 'l' && buf[6] == 'o' && buf[7] == 'w' && buf[8] == 0, "overflow is spelled out"); return; }
    uint32_t sc = 1u; for (int i = 0; i < DEC; ++i) sc *= 10u;
    const uint32_t m = (a < 0) ? 0u - static_cast<uint32_t>(a) : static_cast<uint32_t>(a);
    int pos = 0;
    if (a < 0) { vc_assert(buf[0] == '-', "negative sign"); pos = 1; }
    // |x| in units of the last printed digit, rounded: ip integer part, fr fraction
    uint32_t ip = m >> 16, fr = static_cast<uint32_t>((static_cast<uint64_t>(m & 0xFFFFu)*sc + 32768u) >> 16);
    if (fr >= sc) { fr -= sc; ++ip; }
    uint32_t dv = 10000u; bool lead = true;
    for (int i = 0; i < 5; ++i) {
        const uint32_t d = (ip/dv) % 10u; if (d != 0u || dv == 1u) lead = false;
        if (!lead) { if (digitsToo) vc_assert(buf[pos] == static_cast<char>('0' + d), "integer digits"); ++pos; }
        dv /= 10u;
    }
    if (DEC > 0) {
        vc_assert(buf[pos] == '.', "decimal point"); ++pos;
        dv = sc/10u;
        for (int i = 0; i < DEC; ++i) { if (digitsToo) vc_assert(buf[pos] == static_cast<char>('0' + (fr/dv) % 10u), "fraction digits"); ++pos; dv /= 10u; }
    }
    vc_assert(buf[pos] == '\0', "terminated");
}
template<int DEC> static void ascii(int decArg){ asciiOf<DEC>(vc_i32("a"), decArg, true); }
//@ harness ascii0 prop=C06 budget=120
VC_HARNESS(ascii0){ ascii<0>(0); }
//@ harness ascii2 prop=C06 budget=120
VC_HARNESS(ascii2){ ascii<2>(2); }
//@ harness ascii5 prop=C06 budget=300 tier=thorough note="all digits, magnitudes below one"
VC_HARNESS(ascii5){ const int d = vc_i32("dec"); vc_assume(d >= 5); const int32_t a = vc_i32("a"); vc_assume(a > -65536 && a < 65536); asciiOf<5>(a, d, true); }
//@ harness ascii5s prop=C06 budget=120 note="shape for all magnitudes, five decimals"
VC_HARNESS(ascii5s){ const int d = vc_i32("dec"); vc_assume(d >= 5); asciiOf<5>(vc_i32("a"), d, false); }
//@ harness asciiNeg prop=C06 budget=120
VC_HARNESS(asciiNeg){ const int d = vc_i32("dec"); vc_assume(d < 0); ascii<0>(d); }
VC_SEARCH(asciiAll){ switch (vc_u8("d") % 6u) { case 0: ascii<0>(0); break; case 1: ascii<1>(1); break; case 2: ascii<2>(2); break; case 3: ascii<3>(3); break; case 4: ascii<4>(4); break; default: ascii<5>(5); } }
VC_SEARCH(sqrtAll){
    const int32_t a = vc_i32("a"); vc_assume(a >= 0);
    const int64_t r = fp16::sqrt(mk(a)).raw(); const int64_t n = static_cast<int64_t>(a) << 16;
    vc_assert(r >= 0 && (r == 0 || (r - 1)*(r - 1) < n) && n < (r + 1)*(r + 1), "sqrt is within one unit of the last place");
}
