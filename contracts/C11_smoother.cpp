// C11: smoothing filters. Float arithmetic as real arithmetic; arbitrary histories by a cut loop or by an arbitrary window.
#include "vc.h"
#include "real_stubs.h"
#include <cmath>
#include <include/smoother.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
#ifdef QVC
static const uint64_t MAXH = 1ull << 40;
#else
static const uint64_t MAXH = 12u;
#endif
static const float L = 50.0f;
static float inp(const char* n){ return vc_f32in(n, -L, L); }
static float unit(const char* n){ float a = vc_f32in(n, 0.01f, 0.99f); vc_assume(a > 0.0f && a < 1.0f); return a; }
// an arbitrary history of samples
template<typename F> static void history(F& f){ const size_t n = vc_size("hist", 0u, MAXH); const float* h = vc_farr("h", n, -L, L); for (size_t i = 0; i < n; ++i) (void) f.smooth(h[i]); }
static void eq(double a, double b, const char* w){ vc_close(a, b, 50.0, w); }

//@ harness lpf1 prop=C11 mode=real cut=* stubset=real
VC_HARNESS(lpf1){
    smootherLPF1 f; const float a = unit("a"); vc_assert(f.setup(a), "valid parameter accepted");
    const float x = inp("x"); eq(f.smooth(x), x, "LPF1: the first output is the first sample");
    history(f); const float u = inp("u"), v = inp("v"); const float y = f.smooth(u), z = f.smooth(v);
    eq(z, v + static_cast<double>(a)*(y - v), "LPF1: y = x + alpha (y1 - x)");
    vc_assert(f.reset(), "reset"); eq(f.smooth(x), x, "LPF1: a reset filter starts again at the next sample");
}
//@ harness lpf1Default prop=C11 mode=real stubset=real
VC_HARNESS(lpf1Default){ smootherLPF1 f; vc_assert(f.setup(), "default parameter accepted"); const float u = inp("u"), v = inp("v"); const float y = f.smooth(u), z = f.smooth(v); eq(z, v + static_cast<double>(0.9f)*(y - v), "LPF1: default parameter 0.9"); }
//@ harness lpf2 prop=C11 mode=real cut=* stubset=real
VC_HARNESS(lpf2){
    smootherLPF2 f; const float a = unit("a"); vc_assert(f.setup(a), "valid parameter accepted");
    float i2 = inp("u"), i1 = inp("v"), o2 = f.smooth(i2), o1 = f.smooth(i1);
    const size_t n = vc_size("hist", 0u, MAXH); const float* h = vc_farr("h", n, -L, L); for (size_t i = 0; i < n; ++i) { i2 = i1; i1 = h[i]; o2 = o1; o1 = f.smooth(i1); }
    const float w = inp("w"), z = f.smooth(w);
    const float p = ffmath::sqrt(2.0f*a), aa = a*a, r = 1.0f + p + aa;
    eq(static_cast<double>(z)*r, static_cast<double>(aa)*w + 2.0*aa*i1 + static_cast<double>(aa)*i2 - 2.0*(static_cast<double>(aa) - 1.0)*o1 - (1.0 - static_cast<double>(p) + aa)*o2, "LPF2: second order recursion");
}
//@ harness lpf2dc prop=C11 mode=real cut=* stubset=real
VC_HARNESS(lpf2dc){
    smootherLPF2 f; const float a = unit("a"), c = inp("c"); vc_assert(f.setup(a), "valid parameter accepted"); float y = f.smooth(c); eq(y, c, "LPF2: the first output is the first sample");
    const size_t n = vc_size("hist", 0u, MAXH); for (size_t i = 0; i < n; ++i) y = f.smooth(c); eq(y, c, "LPF2: a constant passes unchanged");
}
//@ harness lpf2reset prop=C11 mode=real cut=* stubset=real
VC_HARNESS(lpf2reset){ smootherLPF2 f; const float a = unit("a"), c = inp("c"); vc_assert(f.setup(a), "valid parameter accepted"); history(f); f.reset(); eq(f.smooth(c), c, "LPF2: a reset filter starts again at the next sample"); }

// moving mean, O(n): the window belongs to the caller, so an arbitrary past is an arbitrary window
template<int N> static void mwm1(){
    float win[N]; smootherMWM1 f; vc_assert(f.setup(win), "valid window accepted"); const float x = inp("x"); eq(f.smooth(x), x, "moving mean: the first output is the first sample");
    double s = 0.0; float old[N]; for (int i = 0; i < N; ++i) { win[i] = old[i] = inp("w"); if (i + 1 < N) s += old[i]; }
    const float v = inp("v"); eq(static_cast<double>(f.smooth(v))*N, s + v, "moving mean: mean of the last N samples");
    vc_assert(win[0] == v, "window: newest first"); for (int i = 1; i < N; ++i) vc_assert(win[i] == old[i - 1], "window: shifted by one");
    f.reset(); const float c = inp("c"); eq(f.smooth(c), c, "moving mean: a reset filter starts again at the next sample");
}
//@ harness mwm1_1 prop=C11 mode=real stubset=real
VC_HARNESS(mwm1_1){ mwm1<1>(); }
//@ harness mwm1_3 prop=C11 mode=real stubset=real
VC_HARNESS(mwm1_3){ mwm1<3>(); }
//@ harness mwm1_8 prop=C11 mode=real stubset=real
VC_HARNESS(mwm1_8){ mwm1<8>(); }
// moving mean, O(1)
template<int N> static void mwm2(){
    float win[N]; smootherMWM2 f; vc_assert(f.setup(win), "valid window accepted"); float h[3*N + 4]; const int T = 2*N + 2;
    for (int t = 0; t < T; ++t) {
        h[t] = inp("x"); double s = 0.0; for (int i = 0; i < N; ++i) s += (t - i >= 0) ? h[t - i] : h[0];
        eq(static_cast<double>(f.smooth(h[t]))*N, s, "moving mean O(1): mean of the last N samples");
    }
    f.reset(); const float c = inp("c"); eq(f.smooth(c), c, "moving mean O(1): a reset filter starts again at the next sample");
}
//@ harness mwm2_1 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mwm2_1){ mwm2<1>(); }
//@ harness mwm2_2 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mwm2_2){ mwm2<2>(); }
//@ harness mwm2_4 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mwm2_4){ mwm2<4>(); }
// moving outlier removal
template<typename F, int N, int T> static void mor(){
    float win[N]; F f; const float a = unit("a"); vc_assert(f.setup(win, a), "valid parameters accepted"); double h[T]; double m = 0.0;
    for (int t = 0; t < T; ++t) {
        const float x = inp("x"); if (t == 0) m = x;
        const double d = (m < x) ? x - m : m - x, am = static_cast<double>(a)*((m < 0.0) ? -m : m);
#ifndef QVC
        vc_assume(d - am > 1e-3 || am - d > 1e-3 || t == 0);
#endif
        h[t] = (d > am) ? m : static_cast<double>(x);
        eq(f.smooth(x), h[t], "outlier removal: the sample, or the mean when it is farther than alpha |mean| from it");
        double s = 0.0; for (int i = 0; i < N; ++i) s += (t - i >= 0) ? h[t - i] : h[0]; m = s/N;
    }
}
//@ harness mor1_2 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mor1_2){ mor<smootherMOR1, 2, 3>(); }
//@ harness mor1_3 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mor1_3){ mor<smootherMOR1, 3, 2>(); }
//@ harness mor2_2 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mor2_2){ mor<smootherMOR2, 2, 3>(); }
//@ harness mor2_3 prop=C11 mode=real stubset=real bounded
VC_HARNESS(mor2_3){ mor<smootherMOR2, 3, 2>(); }
VC_SEARCH(morLong){ if (vc_bool("k")) mor<smootherMOR1, 3, 12>(); else mor<smootherMOR2, 3, 12>(); }
VC_SEARCH(morLong5){ if (vc_bool("k")) mor<smootherMOR1, 5, 16>(); else mor<smootherMOR2, 5, 16>(); }
VC_SEARCH(mwmLong){ if (vc_bool("k")) mwm2<7>(); else mwm2<1>(); }

// gaussian window
template<int N> static void gmwf(){
    float win[N], ker[N]; smootherGMWF f; const float sg = vc_f32in("sg", 0.3f, 10.0f), c = vc_f32in("c", 0.0f, static_cast<float>(N) - 0.5f);
    vc_assert(f.setup(sg, c, win, ker), "valid parameters accepted");
    double s = 0.0; for (int i = 0; i < N; ++i) { vc_assert(ker[i] >= 0.0f, "gaussian kernel: non-negative"); s += ker[i]; } vc_close(s, 1.0, 5.0, "gaussian kernel: sums to one");
    const float x = inp("x"); eq(f.smooth(x), x, "gaussian: the first output is the first sample");
    double y = 0.0; float old[N]; for (int i = 0; i < N; ++i) win[i] = old[i] = inp("w");
    const float v = inp("v"); y = static_cast<double>(ker[0])*v; for (int i = 1; i < N; ++i) y += static_cast<double>(ker[i])*old[i - 1];
    eq(f.smooth(v), y, "gaussian: kernel weighted sum of the last N samples");
    vc_assert(win[0] == v, "window: newest first"); for (int i = 1; i < N; ++i) vc_assert(win[i] == old[i - 1], "window: shifted by one");
}
//@ harness gmwf1 prop=C11 mode=real stubset=real
VC_HARNESS(gmwf1){ gmwf<1>(); }
//@ harness gmwf3 prop=C11 mode=real stubset=real
VC_HARNESS(gmwf3){ gmwf<3>(); }
//@ harness gmwf4 prop=C11 mode=real stubset=real
VC_HARNESS(gmwf4){ gmwf<4>(); }
VC_SEARCH(gmwfShape){
    float win[7], ker[7]; smootherGMWF f; const float sg = vc_f32in("sg", 0.3f, 10.0f), c = vc_f32in("c", 0.0f, 6.9f); vc_assert(f.setup(sg, c, win, ker), "valid parameters accepted");
    double e[7], s = 0.0; for (int i = 0; i < 7; ++i) { e[i] = std::exp(-(i - static_cast<double>(c))*(i - static_cast<double>(c))/(2.0*sg*sg)); s += e[i]; }
    for (int i = 0; i < 7; ++i) vc_close(ker[i], e[i]/s, 20.0, "gaussian kernel: proportional to exp(-(i-c)^2/(2 sigma^2))");
}
#ifdef QVC
extern "C" __attribute__((used)) bool INV_ge1(uint64_t, float c){ return c >= 1.0f; }
extern "C" __attribute__((used)) bool INV_pos(uint64_t, float c){ return c > 0.0f; }
#endif
static bool between(double z, double a, double b){ const double t = VC_NATIVE ? 1e-2 : 0.0; return (z >= a - t && z <= b + t) || (z >= b - t && z <= a + t); }
//@ harness expw prop=C11 mode=real cut=* inv=INV_ge1 stubset=real
VC_HARNESS(expw){
    smootherEXPW f; vc_assert(f.setup(unit("l")), "valid parameter accepted"); const float x = inp("x"); eq(f.smooth(x), x, "exponential weighting: the first output is the first sample");
    history(f); const float u = inp("u"), v = inp("v"); const float y = f.smooth(u), z = f.smooth(v);
    vc_assert(between(z, y, v), "exponential weighting: between the previous output and the sample");
    f.reset(); eq(f.smooth(x), x, "exponential weighting: a reset filter starts again at the next sample");
}
//@ harness expwModel prop=C11 mode=real cut=* stubset=real
VC_HARNESS(expwModel){   // against a model run along an arbitrary history
    smootherEXPW f; const float l = unit("l"), x = inp("x"); vc_assert(f.setup(l), "valid parameter accepted"); float w = l + 1.0f, m = x, iw; eq(f.smooth(x), x, "exponential weighting: the first output is the first sample");
    const size_t n = vc_size("hist", 0u, MAXH); const float* h = vc_farr("h", n, -L, L); for (size_t i = 0; i < n; ++i) { w = l*w + 1.0f; iw = 1.0f/w; m = m*(1.0f - iw) + iw*h[i]; (void) f.smooth(h[i]); }
    const float v = inp("v"); w = l*w + 1.0f; iw = 1.0f/w; m = m*(1.0f - iw) + iw*v; eq(f.smooth(v), m, "exponential weighting: weighted mean with forgetting factor lambda");
}
//@ harness expwSeq prop=C11 mode=real stubset=real bounded
VC_HARNESS(expwSeq){
    smootherEXPW f; const float l = unit("l"); vc_assert(f.setup(l), "valid parameter accepted"); double w = 1.0, m = 0.0;
    for (int t = 0; t < 3; ++t) { const float x = inp("x"); if (t == 0) m = x; const double w1 = l*w + 1.0; m = (m*(w1 - 1.0) + x)/w1; w = w1; eq(f.smooth(x), m, "exponential weighting: weighted mean with forgetting factor lambda"); }
}
VC_SEARCH(expwLong){
    smootherEXPW f; const float l = unit("l"); vc_assert(f.setup(l), "valid parameter accepted"); double w = 1.0, m = 0.0;
    for (int r = 0; r < 2; ++r) { w = 1.0; for (int t = 0; t < 12; ++t) { const float x = inp("x"); if (t == 0) m = x; const double w1 = l*w + 1.0; m = (m*(w1 - 1.0) + x)/w1; w = w1; eq(f.smooth(x), m, "exponential weighting: weighted mean with forgetting factor lambda"); } f.reset(); }
}
//@ harness klmn prop=C11 mode=real cut=* inv=INV_pos stubset=real
VC_HARNESS(klmn){
    smootherKLMN f; const float q = vc_f32in("q", 0.01f, 100.0f), r = vc_f32in("r", 0.01f, 100.0f), p = vc_f32in("p", 0.01f, 100.0f); vc_assert(f.setup(q, r, p), "valid parameters accepted");
    const float x = inp("x"); eq(f.smooth(x), x, "Kalman: the first output is the first sample");
    history(f); const float u = inp("u"), v = inp("v"); const float y = f.smooth(u), z = f.smooth(v);
    vc_assert(between(z, y, v), "Kalman: between the prediction and the sample");
    f.reset(); eq(f.smooth(x), x, "Kalman: a reset filter starts again at the next sample");
}
static void klmnN(int T){
    smootherKLMN f; const float q = vc_f32in("q", 0.01f, 100.0f), r = vc_f32in("r", 0.01f, 100.0f), p0 = vc_f32in("p", 0.01f, 100.0f); vc_assert(f.setup(q, r, p0), "valid parameters accepted");
    double p = p0, m = 0.0; for (int t = 0; t < T; ++t) { const float x = inp("x"); if (t == 0) m = x; const double pp = p + q, g = pp/(r + pp); m = m + g*(x - m); p = (1.0 - g)*pp; eq(f.smooth(x), m, "Kalman: scalar Kalman recursion"); }
}
//@ harness klmnModel prop=C11 mode=real cut=* stubset=real inv=INV_pos
VC_HARNESS(klmnModel){
    smootherKLMN f; const float q = vc_f32in("q", 0.01f, 100.0f), r = vc_f32in("r", 0.01f, 100.0f), p0 = vc_f32in("p", 0.01f, 100.0f), x = inp("x"); vc_assert(f.setup(q, r, p0), "valid parameters accepted");
    float p = p0 + q, g = p/(r + p), m = x; p = (1.0f - g)*p; eq(f.smooth(x), m, "Kalman: the first output is the first sample");
    const size_t n = vc_size("hist", 0u, MAXH); const float* h = vc_farr("h", n, -L, L); for (size_t i = 0; i < n; ++i) { p = p + q; g = p/(r + p); m = m + g*(h[i] - m); p = (1.0f - g)*p; (void) f.smooth(h[i]); }
    const float v = inp("v"); p = p + q; g = p/(r + p); m = m + g*(v - m); eq(f.smooth(v), m, "Kalman: scalar Kalman recursion");
}
//@ harness klmnSeq prop=C11 mode=real stubset=real bounded
VC_HARNESS(klmnSeq){ klmnN(2); }
VC_SEARCH(klmnLong){ klmnN(12); }
static void desfN(int T, int K){
    smootherDESF f; const float a = unit("a"), b = unit("b"); const size_t n = vc_size("steps", 0u, 10u); vc_assert(f.setup(a, b, n), "valid parameters accepted");
    for (int k = 0; k < K; ++k) { double lt = 0.0, bt = 0.0; for (int t = 0; t < T; ++t) { const float x = inp("x"); if (t == 0) lt = x; const double l1 = lt; lt = (1.0 - a)*l1 + static_cast<double>(a)*x; bt = (1.0 - b)*bt + static_cast<double>(b)*(lt - l1); eq(f.smooth(x), lt + static_cast<double>(n)*bt, "double exponential smoothing: level plus n trends"); } f.reset(); }
}
//@ harness desfModel prop=C11 mode=real cut=* stubset=real
VC_HARNESS(desfModel){
    smootherDESF f; const float a = unit("a"), b = unit("b"), x = inp("x"); const size_t s = vc_size("steps", 0u, 10u); vc_assert(f.setup(a, b, s), "valid parameters accepted");
    float lt = x, bt = 0.0f, l1; eq(f.smooth(x), x, "double exponential smoothing: the first output is the first sample");
    const size_t n = vc_size("hist", 0u, MAXH); const float* h = vc_farr("h", n, -L, L); for (size_t i = 0; i < n; ++i) { l1 = lt; lt = (1.0f - a)*l1 + a*h[i]; bt = (1.0f - b)*bt + b*(lt - l1); (void) f.smooth(h[i]); }
    const float v = inp("v"); l1 = lt; lt = (1.0f - a)*l1 + a*v; bt = (1.0f - b)*bt + b*(lt - l1); eq(f.smooth(v), lt + static_cast<float>(s)*bt, "double exponential smoothing: level plus n trends");
}
//@ harness desfSeq prop=C11 mode=real stubset=real bounded
VC_HARNESS(desfSeq){ desfN(3, 1); }
VC_SEARCH(desfLong){ desfN(12, 2); }
//@ harness desf prop=C11 mode=real cut=* stubset=real
VC_HARNESS(desf){
    smootherDESF f; const float a = unit("a"), b = unit("b"); const size_t n = vc_size("steps", 0u, 10u); vc_assert(f.setup(a, b, n), "valid parameters accepted"); history(f); f.reset();
    const float c = inp("c"); eq(f.smooth(c), c, "double exponential smoothing: the first output is the first sample"); eq(f.smooth(c), c, "double exponential smoothing: a constant passes unchanged");
}
// adaptive filter: window and weights belong to the caller, so any past is an arbitrary window and weights
template<int N, bool M> static void alnf(){
    float win[N], wt[N], w1[N]; smootherALNF f; const float a = unit("a"), m = M ? unit("m") : 0.0f;
    if (M) vc_assert(f.setup(a, m, win, wt, w1), "valid parameters accepted"); else vc_assert(f.setup(a, win, wt), "valid parameters accepted");
    const float x = vc_f32in("x", -2.0f, 2.0f); eq(f.smooth(x), x, "adaptive filter: the first output is the first sample");
    float ow[N], o1[N], os[N]; for (int i = 0; i < N; ++i) { win[i] = os[i] = vc_f32in("s", -2.0f, 2.0f); wt[i] = ow[i] = vc_f32in("w", -2.0f, 2.0f); w1[i] = o1[i] = vc_f32in("w1", -2.0f, 2.0f); }
    const float v = vc_f32in("v", -2.0f, 2.0f); double y = static_cast<double>(ow[0])*v; for (int i = 1; i < N; ++i) y += static_cast<double>(ow[i])*os[i - 1];
    const float xe = f.smooth(v); eq(xe, y, "adaptive filter: weighted sum of the last N samples");
    for (int i = 0; i < N; ++i) {
        const float s = (i == 0) ? v : os[i - 1]; vc_assert(win[i] == s, "window: shifted by one");
        eq(wt[i], ow[i] + static_cast<double>(a)*(v - y)*s + (M ? static_cast<double>(m)*(static_cast<double>(ow[i]) - o1[i]) : 0.0), "adaptive filter: LMS weight update with momentum");
        if (M) vc_assert(w1[i] == ow[i], "adaptive filter: previous weights kept"); else vc_assert(w1[i] == o1[i], "unused array untouched");
    }
    f.reset(); const float c = vc_f32in("c", -2.0f, 2.0f); eq(f.smooth(c), c, "adaptive filter: a reset filter starts again at the next sample");
}
//@ harness alnf1 prop=C11 mode=real stubset=real
VC_HARNESS(alnf1){ alnf<1, true>(); }
//@ harness alnf3 prop=C11 mode=real stubset=real
VC_HARNESS(alnf3){ alnf<3, true>(); }
//@ harness alnf3n prop=C11 mode=real stubset=real
VC_HARNESS(alnf3n){ alnf<3, false>(); }

// parameters: exactly the documented ranges are accepted (bit-precise, also NaN and infinities)
static bool in01(float a){ return a > 0.0f && a < 1.0f; }
//@ harness params prop=C11 stub=qlibs::ffmath::sqrt=>ST_fp1,qlibs::ffmath::exp=>ST_fp1
#ifdef QVC
extern "C" __attribute__((used)) float ST_fp1(float x){ return vc_uff1("fp1", x); }
#endif
VC_HARNESS(params){
    const float a = vc_f32("a"), b = vc_f32("b"), c = vc_f32("c"); float w[2], k[2], w1[2]; const size_t n = vc_size("n", 0u, 2u); float* const p = vc_bool("null") ? nullptr : w;
    smootherLPF1 f1; vc_assert(f1.setup(a) == in01(a), "LPF1 accepts exactly 0 < a < 1");
    smootherLPF2 f2; vc_assert(f2.setup(a) == in01(a), "LPF2 accepts exactly 0 < a < 1");
    smootherMWM1 m1; vc_assert(m1.setup(p, n) == (p != nullptr && n > 0u), "moving mean needs a window");
    smootherMWM2 m2; vc_assert(m2.setup(p, n) == (p != nullptr && n > 0u), "moving mean O(1) needs a window");
    smootherMOR1 o1; vc_assert(o1.setup(p, n, a) == (p != nullptr && n > 0u && in01(a)), "outlier removal: window and 0 < a < 1");
    smootherMOR2 o2; vc_assert(o2.setup(p, n, a) == (p != nullptr && n > 0u && in01(a)), "outlier removal O(1): window and 0 < a < 1");
    smootherEXPW e; vc_assert(e.setup(a) == in01(a), "exponential weighting accepts exactly 0 < lambda < 1");
    smootherKLMN kf; vc_assert(kf.setup(a, b, c) == (a > 0.0f && b > 0.0f && c > 0.0f), "Kalman accepts exactly positive covariances");
    smootherDESF d; vc_assert(d.setup(a, b, n) == (in01(a) && in01(b)), "double exponential accepts exactly 0 < a, b < 1");
    smootherALNF l; vc_assert(l.setup(a, b, n, p, k, w1) == (p != nullptr && n > 0u && in01(a) && b >= 0.0f && b < 1.0f), "adaptive filter: window, 0 < a < 1, 0 <= m < 1");
    smootherGMWF g; if (n == 2u) vc_assert(g.setup(a, b, p, k, n) == (p != nullptr && b < 2.0f && a > 0.0f), "gaussian: window, positive sigma, center inside");
}
//@ harness rejected prop=C11 mode=real stubset=real
VC_HARNESS(rejected){   // a refused setup leaves the filter as it was
    smootherLPF1 f; const float a = unit("a"); f.setup(a); const float x = inp("x"), v = inp("v"); const float y = f.smooth(x); vc_assert(!f.setup(1.0f + unit("bad")) && !f.setup(-unit("neg")), "out of range refused"); eq(f.smooth(v), v + static_cast<double>(a)*(y - v), "a refused setup changes nothing");
    smootherEXPW e, e2; e.setup(a); e2.setup(a); e.smooth(x); e2.smooth(x); vc_assert(!e.setup(1.0f + unit("bad2")), "out of range refused"); eq(e.smooth(v), e2.smooth(v), "a refused setup changes nothing");
}
