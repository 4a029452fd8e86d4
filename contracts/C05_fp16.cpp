// C05: Q16.16 arithmetic: exact result rounded to nearest (ties away from zero), or the overflow indication.
#include "vc.h"
#include <include/fp16.hpp>
using namespace qlibs;
static const int32_t OVF = INT32_MIN;
static inline fp16 mk(int32_t raw){ fp16 x; memcpy(static_cast<void*>(&x), &raw, 4); return x; }
static inline int32_t clampOvf(int64_t r){ return (r > INT32_MAX || r < -static_cast<int64_t>(INT32_MAX)) ? OVF : static_cast<int32_t>(r); }

//@ harness addsub prop=C05
VC_HARNESS(addsub){
    const int32_t a = vc_i32("a"), b = vc_i32("b");
    const int64_t s = static_cast<int64_t>(a) + b, d = static_cast<int64_t>(a) - b;
    fp16 x = mk(a), y = mk(b);
    vc_assert((x + y).raw() == clampOvf(s), "sum is exact or overflow");
    vc_assert((x - y).raw() == clampOvf(d), "difference is exact or overflow");
    fp16 z = mk(a); vc_assert((z += y).raw() == clampOvf(s) && z.raw() == clampOvf(s), "+=");
    fp16 w = mk(a); vc_assert((w -= y).raw() == clampOvf(d) && w.raw() == clampOvf(d), "-=");
    vc_assert(x.raw() == a && y.raw() == b, "operands are unchanged");
    vc_assert((x + y).isOverflow() == (clampOvf(s) == OVF), "isOverflow reports the indication");
}
//@ harness mul prop=C05 mulabs budget=100 t1=60
VC_HARNESS(mul){
    const int32_t a = vc_i32("a"), b = vc_i32("b");
    const int64_t p = static_cast<int64_t>(a)*static_cast<int64_t>(b);
    const int64_t r = (p >= 0) ? ((p + 0x8000) >> 16) : -((-p + 0x8000) >> 16);
    fp16 x = mk(a), y = mk(b);
    vc_assert((x*y).raw() == clampOvf(r), "product is the nearest Q16.16 value, or overflow");
    fp16 z = mk(a); z *= y;
    vc_assert(z.raw() == clampOvf(r), "*=");
}
//@ harness unary prop=C05
VC_HARNESS(unary){
    const int32_t a = vc_i32("a"); fp16 x = mk(a);
    vc_assert((-x).raw() == clampOvf(-static_cast<int64_t>(a)), "negation is exact or overflow");
    fp16 p = mk(a); fp16 q = mk(a);
    const int32_t up = clampOvf(static_cast<int64_t>(a) + 65536), dn = clampOvf(static_cast<int64_t>(a) - 65536);
    vc_assert((++p).raw() == up && p.raw() == up, "pre-increment adds one");
    vc_assert((q++).raw() == a && q.raw() == up, "post-increment adds one and returns the old value");
    fp16 r = mk(a); fp16 s = mk(a);
    vc_assert((--r).raw() == dn && r.raw() == dn, "pre-decrement subtracts one");
    vc_assert((s--).raw() == a && s.raw() == dn, "post-decrement subtracts one and returns the old value");
}
//@ harness compare prop=C05
VC_HARNESS(compare){
    const int32_t a = vc_i32("a"), b = vc_i32("b"); const fp16 x = mk(a), y = mk(b);
    vc_assert((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b), "comparisons order the represented numbers");
    vc_assert(x.raw() == a && x.isOverflow() == (a == OVF), "raw and isOverflow");
    fp16 z; z = x; vc_assert(z.raw() == a, "assignment copies"); fp16 w(x); vc_assert(w.raw() == a, "copy construction copies");
    fp16 d; vc_assert(d.raw() == 0, "default value is zero");
}
static void divOf(const int32_t a, const int32_t b){
    vc_assume(a != OVF && b != OVF && b != 0);
    const uint64_t n = static_cast<uint64_t>((a < 0) ? -static_cast<int64_t>(a) : a) << 16, d = static_cast<uint64_t>((b < 0) ? -static_cast<int64_t>(b) : b);
    const int64_t q = static_cast<int64_t>((2u*n + d)/(2u*d));      // nearest, ties away from zero
    const int32_t want = clampOvf(((a < 0) != (b < 0)) ? -q : q);
    fp16 x = mk(a), y = mk(b);
    vc_assert((x/y).raw() == want, "quotient is the nearest Q16.16 value, or overflow");
    fp16 z = mk(a); z /= y; vc_assert(z.raw() == want, "/=");
}
//@ harness divC1 prop=C05 unroll=40 bounded budget=120 note="all numerators, divisors 1 and -1 ulp"
VC_HARNESS(divC1){ const int32_t a = vc_i32("a"); divOf(a, 1); divOf(a, -1);}
//@ harness divCB prop=C05 unroll=40 bounded budget=120 note="all numerators, divisor max"
VC_HARNESS(divCB){ const int32_t a = vc_i32("a"); divOf(a, -INT32_MAX); }
VC_SEARCH(divAll){ divOf(vc_i32("a"), vc_i32("b")); }
