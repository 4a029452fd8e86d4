// C12: recursive RMS estimator = first-order filter of the moving mean of sqrt(exponentially weighted mean of x^2).
#include "vc.h"
#include "real_stubs.h"
#include <cmath>
#include <include/rms.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
static const float L = 50.0f;
static float inp(const char* n){ return vc_f32in(n, -L, L); }
static void eq(double a, double b, const char* w){ vc_close(a, b, 50.0, w); }
static float mag(float x){ return (x < 0.0f) ? -x : x; }
#ifdef QVC
static float root(float x){ return ST_sqrt(x); }
static const bool LONG = false;
static const uint64_t MAXH = 1ull << 40;
#else
static const uint64_t MAXH = 12u;
static double root(double x){ return std::sqrt(x); }
#endif
template<int N> static void first(){
    float win[N]; rms r; vc_assert(r.setup(win), "window accepted"); const float x = inp("x"); const float y = r.update(x);
    vc_assert(y >= 0.0f, "RMS is not negative"); vc_close(static_cast<double>(y)*y, static_cast<double>(x)*x, 2500.0, "the first estimate is the magnitude of the first sample");
}
//@ harness first1 prop=C12 mode=real stubset=real
VC_HARNESS(first1){ first<1>(); }
//@ harness first3 prop=C12 mode=real stubset=real
VC_HARNESS(first3){ first<3>(); }
// a signal of constant magnitude c (any signs) has RMS c
template<int N, int T> static void constant(){
    float win[N]; rms r; vc_assert(r.setup(win), "window accepted"); const float c = vc_f32in("c", 0.0f, L);
    for (int t = 0; t < T; ++t) eq(r.update(vc_bool("neg") ? -c : c), c, "a signal of constant magnitude has that RMS value");
}
//@ harness constant1 prop=C12 mode=real stubset=real bounded
VC_HARNESS(constant1){ constant<1, 3>(); }
//@ harness constant2 prop=C12 mode=real stubset=real bounded
VC_HARNESS(constant2){ constant<2, 3>(); }
VC_SEARCH(constantLong){ constant<8, 40>(); }
// composition of the three stages, with the default or the given parameters
template<int N, int T> static void stages(bool set){
    float win[N]; rms r; vc_assert(r.setup(win), "window accepted"); float l = 0.99f, a = 0.75f;
    const bool later = set && vc_bool("later"); const int when = later ? 1 : 0;      // before the first sample, or while running
    if (set && !later) { l = vc_f32in("l", 0.01f, 1.0f); a = vc_f32in("a", 0.01f, 1.0f); vc_assert(r.setParams(l, a), "valid parameters accepted"); }
    double w = 1.0, m = 0.0, s[T], y = 0.0;
    for (int t = 0; t < T; ++t) {
        if (later && t == when) { l = vc_f32in("l", 0.01f, 1.0f); a = vc_f32in("a", 0.01f, 1.0f); vc_assert(r.setParams(l, a), "valid parameters accepted"); }
        const float x = inp("x"); const double xx = static_cast<double>(x)*x; if (t == 0) m = xx;
        w = l*w + 1.0; const double iw = 1.0/w; m = m*(1.0 - iw) + iw*xx; s[t] = root(m);
        double sum = 0.0; for (int i = 0; i < N; ++i) sum += s[(t - i >= 0) ? t - i : 0]; const double mean = sum/N;
        if (t == 0) y = mean;
        y = mean + a*(y - mean); eq(r.update(x), y, "RMS: low-pass of the moving mean of the root of the weighted mean square");
    }
}
//@ harness stages1 prop=C12 mode=real stubset=real bounded
VC_HARNESS(stages1){ stages<1, 2>(false); }
//@ harness stages2 prop=C12 mode=real stubset=real bounded
VC_HARNESS(stages2){ stages<2, 3>(false); }
//@ harness stages2p prop=C12 mode=real stubset=real bounded
VC_HARNESS(stages2p){ stages<2, 3>(true); }
VC_SEARCH(stagesLong){ if (vc_bool("w")) stages<8, 40>(vc_bool("set")); else stages<3, 20>(vc_bool("set")); }
//@ harness model prop=C12 mode=real stubset=real cut=*
VC_HARNESS(model){   // any history, parameters changed at any point of it, against a model run alongside (window of one sample)
    float win[1]; rms r; vc_assert(r.setup(win), "window accepted"); const float x = inp("x"); float w = 1.99f, m = x*x, y = root(m), iw, s; w = 0.99f*1.0f + 1.0f; (void) r.update(x);
    float l = 0.99f, a = 0.75f; const float* hl; const float* ha;
    const size_t n = vc_size("hist", 0u, MAXH); const float* h = vc_farr("h", n, -L, L); hl = vc_farr("hl", n, 0.01f, 1.0f); ha = vc_farr("ha", n, 0.01f, 1.0f);
    for (size_t i = 0; i < n; ++i) { if (vc_bool("change") && r.setParams(hl[i], ha[i])) { l = hl[i]; a = ha[i]; } w = l*w + 1.0f; iw = 1.0f/w; m = m*(1.0f - iw) + iw*(h[i]*h[i]); s = root(m); y = s + a*(y - s); (void) r.update(h[i]); }
    const float v = inp("v"); w = l*w + 1.0f; iw = 1.0f/w; m = m*(1.0f - iw) + iw*(v*v); s = root(m); y = s + a*(y - s);
    eq(r.update(v), y, "RMS: low-pass of the moving mean of the root of the weighted mean square, with the parameters then in force");
}
// never negative, never above the largest magnitude seen, for every history (loop invariants on the filter states)
#ifdef QVC
static float gM; static float gMM;
extern "C" __attribute__((used)) bool INV_b1(uint64_t, float c){ return c >= 0.0f && c <= gM; }
extern "C" __attribute__((used)) bool INV_b2(uint64_t, float c){ return c >= 0.0f && c <= gM*gM; }
extern "C" __attribute__((used)) bool INV_w(uint64_t, float c){ return c >= 1.0f; }
#else
static float gM;
#endif
//@ harness range prop=C12 mode=real stubset=real cut=* inv=INV_b1,INV_b2,INV_w invt=20
VC_HARNESS(range){
    float win[1]; rms r; vc_assert(r.setup(win), "window accepted"); gM = vc_f32in("M", 1.0f, L); const float x = vc_f32in("x", -L, L); vc_assume(mag(x) <= gM); float y = r.update(x);
    const size_t n = vc_size("hist", 0u, MAXH); for (size_t i = 0; i < n; ++i) { const float v = vc_f32in("v", -L, L); vc_assume(mag(v) <= gM); y = r.update(v); }
    const float t = VC_NATIVE ? 0.01f : 0.0f; vc_assert(y >= -t && y <= gM + t, "RMS lies between zero and the largest magnitude seen");
}
VC_SEARCH(rangeN){
    float win[5]; rms r; vc_assert(r.setup(win), "window accepted"); float M = 0.0f; for (int i = 0; i < 30; ++i) { const float x = inp("x"); if (mag(x) > M) M = mag(x); const float y = r.update(x); vc_assert(y >= 0.0f && y <= M + 0.01f, "RMS lies between zero and the largest magnitude seen"); }
}
//@ harness params prop=C12
VC_HARNESS(params){
    float win[2]; rms r; const size_t n = vc_size("n", 0u, 2u); float* const p = vc_bool("null") ? nullptr : win; vc_assert(r.setup(p, n) == (p != nullptr && n > 0u), "a window is required");
    const float l = vc_f32("l"), a = vc_f32("a"); vc_assert(r.setParams(l, a) == (l > 0.0f && l <= 1.0f && a > 0.0f && a <= 1.0f), "parameters accepted exactly in (0,1]");
}
//@ harness refused prop=C12 mode=real stubset=real bounded
VC_HARNESS(refused){
    float w1[2], w2[2]; rms r, s; r.setup(w1); s.setup(w2); const float x = inp("x"), v = inp("v"); r.update(x); s.update(x);
    vc_assert(!r.setParams(0.0f, 0.5f) && !r.setParams(0.5f, 1.5f) && !r.setParams(-0.5f, 0.5f) && !r.setParams(0.5f, 0.0f) && !r.setup(nullptr, 2u), "out of range refused"); eq(r.update(v), s.update(v), "a refused setting changes nothing");
}
