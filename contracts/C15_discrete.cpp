// C15: discrete LTI systems follow the difference equation of their transfer function. Float arithmetic as real arithmetic.
#include "vc.h"
#include "real_stubs.h"
#include <include/ltisys.hpp>
using namespace qlibs;
#ifdef QVC
static const uint64_t MAXN = 1ull << 40;
#else
static const uint64_t MAXN = 24u;
#endif
static const float L = 4.0f;
static float inp(const char* n){ return vc_f32in(n, -L, L); }
static float clampf(float y, float lo, float hi){ return (y < lo) ? lo : (y > hi) ? hi : y; }
// leading coefficient away from zero
static float lead(void){ const float a = vc_f32in("a0", 0.5f, L); return vc_bool("neg") ? -a : a; }
// ---- the FIR window of any length
static float *gw; static const float *gc, *g0; static size_t gn;
#ifdef QVC
extern "C" __attribute__((used)) float spec_fir(uint64_t k){ return (k == 0u) ? 0.0f : spec_fir(k - 1u) + g0[gn - 1u - k]*gc[gn - k]; }     // sum of the last k taps after the shift
extern "C" __attribute__((used)) float spec_sum(uint64_t k){ return (k == 0u) ? 0.0f : spec_sum(k - 1u) + g0[gn - 1u - k]; }
extern "C" __attribute__((used)) bool INV_fir(uint64_t it, float y){ return it < gn && y == spec_fir(it); }
extern "C" __attribute__((used)) bool INV_sum(uint64_t it, float y){ return it < gn && y == spec_sum(it); }
// the same sums when the newest sample is added first
static float gx;
extern "C" __attribute__((used)) bool INV_firx(uint64_t it, float y){ return it < gn && y == spec_fir(it) + gc[0]*gx; }
extern "C" __attribute__((used)) bool INV_sumx(uint64_t it, float y){ return it < gn && y == spec_sum(it) + gx; }
#else
static float gx;
static double spec_fir(uint64_t k){ double s = 0.0; for (uint64_t j = 1; j <= k; ++j) s += static_cast<double>(g0[gn - 1u - j])*static_cast<double>(gc[gn - j]); return s; }
static double spec_sum(uint64_t k){ double s = 0.0; for (uint64_t j = 1; j <= k; ++j) s += static_cast<double>(g0[gn - 1u - j]); return s; }
#endif
static void window(bool coef){
    gn = vc_size("n", 1u, MAXN); gw = vc_farr("w", gn, -L, L); const float* c = vc_farr("c", gn, -L, L); gc = c; const float x = inp("x"); gx = x; const uint64_t k = vc_index("k", gn);
    float* old = vc_farr("old", gn, -L, L); g0 = old;
#ifdef QVC
    struct Q { static bool same(uint64_t i){ return i >= gn || g0[i] == gw[i]; } }; vc_assume_forall(Q::same, "old is the window before the call");
#else
    for (size_t i = 0; i < gn; ++i) old[i] = gw[i];
#endif
    const float ck = c[k]; const float y = discreteSystem::updateFIR(gw, gn, x, coef ? c : nullptr);
    if (coef) vc_close(y, spec_fir(gn - 1u) + c[0]*x, 100.0, "FIR: the sum of taps times coefficients"); else vc_close(y, spec_sum(gn - 1u) + x, 100.0, "FIR without coefficients: the sum of the window");
    vc_assert(gw[k] == ((k == 0u) ? x : old[(k == 0u) ? 0u : k - 1u]), "FIR: the window moves by one sample"); vc_assert(c[k] == ck, "FIR: coefficients untouched");
}
//@ harness fir prop=C15 mode=real cut=* inv=INV_fir,INV_firx spec=spec_fir:2
VC_HARNESS(fir){ window(true); }
//@ harness firsum prop=C15 mode=real cut=* inv=INV_sum,INV_sumx spec=spec_sum:2
VC_HARNESS(firsum){ window(false); }
// ---- the difference equation from an arbitrary state: sum a[j]*y[k-j] = sum b[i]*u[k-i]
template<size_t NB, size_t NA> static void diffeq(bool fromZero){
    const size_t N = (NA > NB) ? NA : NB; float num[NB], den[NA], b[NB], a[NA], x[N], xi[N], u[N], y[N];
    for (size_t i = 0; i < NB; ++i) b[i] = num[i] = inp("b"); for (size_t i = 0; i < NA; ++i) a[i] = den[i] = (i == 0) ? lead() : inp("a"); for (size_t i = 0; i < N; ++i) { xi[i] = inp("x0"); x[i] = inp("junk"); }
    discreteSystem s(num, den, x); vc_assert(s.isInitialized() && s.getType() == LTISYS_TYPE_DISCRETE, "configured"); if (!fromZero) vc_assert(s.setInitStates(xi), "initial states accepted");
    for (size_t k = 0; k < N; ++k) {
        u[k] = inp("u"); y[k] = s.excite(u[k]); vc_assume(y[k] > -1e30f && y[k] < 1e30f);
        if (!fromZero && k + 1u < N) continue;
        float l = 0.0f, r = 0.0f; for (size_t j = 0; j < NA && j <= k; ++j) l += a[j]*y[k - j]; for (size_t i = 0; i < NB && i <= k; ++i) r += b[i]*u[k - i];
        vc_close(l, r, 1e5, fromZero ? "difference equation from rest" : "difference equation from any state");
    }
}
#define SYS(NB, NA) VC_HARNESS(any##NB##NA){ diffeq<NB, NA>(false); } VC_HARNESS(zero##NB##NA){ diffeq<NB, NA>(true); }
//@ harness any11 prop=C15 mode=real
//@ harness zero11 prop=C15 mode=real
SYS(1, 1)
//@ harness any12 prop=C15 mode=real
//@ harness zero12 prop=C15 mode=real
SYS(1, 2)
//@ harness any21 prop=C15 mode=real
//@ harness zero21 prop=C15 mode=real
SYS(2, 1)
//@ harness any22 prop=C15 mode=real
//@ harness zero22 prop=C15 mode=real
SYS(2, 2)
//@ harness any13 prop=C15 mode=real
//@ harness zero13 prop=C15 mode=real
SYS(1, 3)
//@ harness any31 prop=C15 mode=real
//@ harness zero31 prop=C15 mode=real
SYS(3, 1)
//@ harness any23 prop=C15 mode=real
//@ harness zero23 prop=C15 mode=real
SYS(2, 3)
//@ harness any32 prop=C15 mode=real
//@ harness zero32 prop=C15 mode=real
SYS(3, 2)
//@ harness any33 prop=C15 mode=real
//@ harness zero33 prop=C15 mode=real
SYS(3, 3)
//@ harness any14 prop=C15 mode=real
//@ harness zero14 prop=C15 mode=real
SYS(1, 4)
//@ harness any42 prop=C15 mode=real
//@ harness zero42 prop=C15 mode=real
SYS(4, 2)
// ---- saturation and input delay act outside the recursion
template<size_t NB, size_t NA> struct Sys { float num[NB], den[NA], x[(NA > NB) ? NA : NB]; };
template<size_t NB, size_t NA> static void fill(Sys<NB, NA>& p, Sys<NB, NA>& q){
    for (size_t i = 0; i < NB; ++i) p.num[i] = q.num[i] = inp("b"); for (size_t i = 0; i < NA; ++i) p.den[i] = q.den[i] = (i == 0) ? lead() : inp("a");
}
template<size_t NB, size_t NA> static void saturated(){
    const size_t N = (NA > NB) ? NA : NB; Sys<NB, NA> p, q; fill(p, q); discreteSystem s(p.num, p.den, p.x), t(q.num, q.den, q.x); float xi[N]; for (size_t i = 0; i < N; ++i) xi[i] = inp("x0"); (void) s.setInitStates(xi); (void) t.setInitStates(xi);
    const float lo = inp("lo"), hi = inp("hi"); const bool ok = s.setSaturation(lo, hi); vc_assert(ok == (hi > lo), "limits accepted exactly when max > min");
    for (size_t k = 0; k < 2u; ++k) { const float u = inp("u"), y = s.excite(u), z = t.excite(u); vc_assume(z > -1e30f && z < 1e30f); vc_assert(y == (ok ? clampf(z, lo, hi) : z), "the output is the clamped output of the unlimited system"); }
}
//@ harness sat12 prop=C15 mode=real
VC_HARNESS(sat12){ saturated<1, 2>(); }
//@ harness sat23 prop=C15 mode=real
VC_HARNESS(sat23){ saturated<2, 3>(); }
template<size_t ND> static void delayed(void){
    Sys<2, 2> p, q; fill(p, q); discreteSystem s(p.num, p.den, p.x), t(q.num, q.den, q.x); float w[ND]; const float ini = inp("ini"); vc_assert(s.setDelay(w, ND, ini), "delay accepted"); float u[ND + 2u];
    for (size_t k = 0; k < ND + 2u; ++k) { u[k] = inp("u"); const float y = s.excite(u[k]), z = t.excite((k + 1u < ND) ? ini : u[k + 1u - ND]); vc_assume(z > -1e30f && z < 1e30f); vc_assert(y == z, "a window of n samples delays the input by n - 1 steps"); }
}
//@ harness delay1 prop=C15 mode=real
VC_HARNESS(delay1){ delayed<1>(); }
//@ harness delay2 prop=C15 mode=real
VC_HARNESS(delay2){ delayed<2>(); }
//@ harness delay4 prop=C15 mode=real
VC_HARNESS(delay4){ delayed<4>(); }
template<size_t ND> static void transport(void){
    const float ini = inp("ini"); transportDelay<ND> d(ini); float u[2u*ND + 3u];
    for (size_t k = 0; k < 2u*ND + 3u; ++k) { u[k] = vc_f32("u"); vc_assert(vc_same(d(u[k]), (k < ND) ? ini : u[k - ND]), "transport delay: the input of n steps ago"); }
}
//@ harness transport prop=C15 mode=fp unroll=20
VC_HARNESS(transport){ transport<1>(); transport<2>(); transport<3>(); transport<5>(); }
// ---- configuration
//@ harness config prop=C15 mode=uf
VC_HARNESS(config){
    float num[2] = { inp("b0"), inp("b1") }, den[2] = { lead(), inp("a1") }, x[2]; const size_t nb = vc_size("nb", 0u, 2u), na = vc_size("na", 0u, 2u); const uint8_t nul = vc_u8("null"); const float u = inp("u");
    discreteSystem s((nul & 1u) ? nullptr : num, (nul & 2u) ? nullptr : den, (nul & 4u) ? nullptr : x, nb, na); const bool ok = (nul & 7u) == 0u && nb > 0u && na > 0u;
    vc_assert(s.isInitialized() == ok && s.getType() == (ok ? LTISYS_TYPE_DISCRETE : LTISYS_TYPE_UNKNOWN), "configured exactly when coefficients, states and sizes are given");
    float w[2]; if (!ok) vc_assert(!s.setDelay(w, 2u) && !s.setSaturation(0.0f, 1.0f) && !s.setInitStates() && s.excite(u) == 0.0f, "an unconfigured system refuses settings and answers 0");
}
