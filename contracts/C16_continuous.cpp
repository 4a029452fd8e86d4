// C16: continuous LTI systems: the controllable canonical form of the transfer function, integrated step by step. Float arithmetic as real arithmetic.
#include "vc.h"
#include "real_stubs.h"
#include <include/ltisys.hpp>
using namespace qlibs;
#ifdef QVC
static const uint64_t MAXH = 1ull << 40;
#else
static const uint64_t MAXH = 12u;
#endif
static const float L = 4.0f;
static float inp(const char* n){ return vc_f32in(n, -L, L); }
static float clampf(float y, float lo, float hi){ return (y < lo) ? lo : (y > hi) ? hi : y; }
static float lead(void){ const float a = vc_f32in("a0", 0.5f, L); return vc_bool("neg") ? -a : a; }
// x' = A x + B u in controllable canonical form, y = C x + D u, derivatives all taken from the states before the step
template<size_t N> struct Model {
    float a[N + 1], b[N + 1], dt, x[N], s1[N], s2[N]; integrationMethod m;
    float area(float s, float p, float q) const { return (m == INTEGRATION_RECTANGULAR) ? s*dt : (m == INTEGRATION_TRAPEZOIDAL) ? 0.5f*(s + p)*dt : ((1.0f/6.0f)*(s + 4.0f*p + q))*dt; }
    float step(float u){
        float d[N]; const float a0 = a[0], b0 = b[0]/a0; d[0] = u; for (size_t i = 0; i < N; ++i) d[0] = d[0] - (a[i + 1]/a0)*x[i]; for (size_t i = 1; i < N; ++i) d[i] = x[i - 1];
        float y = b0*u; for (size_t i = 0; i < N; ++i) { x[i] = x[i] + area(d[i], s1[i], s2[i]); s2[i] = s1[i]; s1[i] = d[i]; y = y + (b[i + 1]/a0 - (a[i + 1]/a0)*b0)*x[i]; }
        return y;
    }
};
template<size_t N> struct Pair { float num[N + 1], den[N + 1]; nState st[N]; Model<N> m; };
template<size_t N> static void fill(Pair<N>& p, integrationMethod im){
    for (size_t i = 0; i <= N; ++i) { p.m.b[i] = p.num[i] = inp("b"); p.m.a[i] = p.den[i] = (i == 0) ? lead() : inp("a"); }
    p.m.dt = vc_f32in("dt", 0.0078125f, 0.5f); p.m.m = im; for (size_t i = 0; i < N; ++i) p.m.x[i] = p.m.s1[i] = p.m.s2[i] = 0.0f;
}
template<size_t N> static void history(integrationMethod im, bool setM){
    Pair<N> p; fill(p, im); continuousSystem s(p.num, p.den, p.st, N, p.m.dt); vc_assert(s.isInitialized() && s.getType() == LTISYS_TYPE_CONTINUOUS, "configured"); if (setM) vc_assert(s.setIntegrationMethod(im), "method accepted");
    const size_t n = vc_size("hist", 0u, MAXH); const float* u = vc_farr("us", n, -L, L);
    for (size_t i = 0; i < n; ++i) { (void) p.m.step(u[i]); (void) s.excite(u[i]); }
    const float v = inp("u"); const float want = p.m.step(v); const float y = s.excite(v); vc_assume(y > -1e30f && y < 1e30f); if (VC_NATIVE) { float big = 0.0f; for (size_t i = 0; i < N; ++i) { big += (p.m.x[i] < 0.0f) ? -p.m.x[i] : p.m.x[i]; } vc_close(y, want, 100.0*(1.0 + static_cast<double>(big)), "canonical form after any history"); } else vc_close(y, want, 1.0, "canonical form after any history");
}
//@ harness order1 prop=C16 mode=real cut=history
VC_HARNESS(order1){ history<1>(INTEGRATION_TRAPEZOIDAL, false); }
//@ harness order2 prop=C16 mode=real cut=history
VC_HARNESS(order2){ history<2>(INTEGRATION_TRAPEZOIDAL, false); }
//@ harness order3 prop=C16 mode=real cut=history
VC_HARNESS(order3){ history<3>(INTEGRATION_TRAPEZOIDAL, false); }
//@ harness order4 prop=C16 mode=real cut=history
VC_HARNESS(order4){ history<4>(INTEGRATION_TRAPEZOIDAL, false); }
//@ harness rect2 prop=C16 mode=real cut=history
VC_HARNESS(rect2){ history<2>(INTEGRATION_RECTANGULAR, true); }
//@ harness simp1 prop=C16 mode=real cut=history
VC_HARNESS(simp1){ history<1>(INTEGRATION_SIMPSON, true); }
//@ harness simp3 prop=C16 mode=real cut=history
VC_HARNESS(simp3){ history<3>(INTEGRATION_SIMPSON, true); }
// given initial states are the states the next step starts from; without states the system is at rest again
template<size_t N> static void initial(void){
    Pair<N> p; fill(p, INTEGRATION_RECTANGULAR); continuousSystem s(p.num, p.den, p.st, N, p.m.dt); vc_assert(s.setIntegrationMethod(INTEGRATION_RECTANGULAR), "method accepted"); float xi[N]; for (size_t i = 0; i < N; ++i) p.m.x[i] = xi[i] = inp("xi");
    (void) s.excite(inp("u0")); vc_assert(s.setInitStates(xi), "states accepted"); const float u = inp("u"), want = p.m.step(u), y = s.excite(u); vc_assume(y > -1e30f && y < 1e30f); vc_close(y, want, 1000.0, "each given initial state is taken for its own state");
    vc_assert(s.setInitStates() && s.setIntegrationMethod(INTEGRATION_SIMPSON), "at rest"); for (size_t i = 0; i < N; ++i) p.m.x[i] = p.m.s1[i] = p.m.s2[i] = 0.0f; p.m.m = INTEGRATION_SIMPSON; const float w2 = p.m.step(u), y2 = s.excite(u); vc_assume(y2 > -1e30f && y2 < 1e30f); vc_close(y2, w2, 1000.0, "states reset to rest");
}
//@ harness init1 prop=C16 mode=real
VC_HARNESS(init1){ initial<1>(); }
//@ harness init3 prop=C16 mode=real
VC_HARNESS(init3){ initial<3>(); }
// a second system without limits and delay: limits clamp the output only, the delay acts on the input only
template<size_t N> static void limited(void){
    Pair<N> p, q; fill(p, INTEGRATION_TRAPEZOIDAL); fill(q, INTEGRATION_TRAPEZOIDAL); for (size_t i = 0; i <= N; ++i) { q.num[i] = p.num[i]; q.den[i] = p.den[i]; } float xi[N]; for (size_t i = 0; i < N; ++i) xi[i] = inp("xi");
    continuousSystem s(p.num, p.den, p.st, N, p.m.dt), t(q.num, q.den, q.st, N, p.m.dt); (void) s.setInitStates(xi); (void) t.setInitStates(xi); const float lo = inp("lo"), hi = inp("hi"); const bool ok = s.setSaturation(lo, hi); vc_assert(ok == (hi > lo), "limits accepted exactly when max > min");
    for (size_t k = 0; k < 2u; ++k) { const float u = inp("u"), y = s.excite(u), z = t.excite(u); vc_assume(z > -1e30f && z < 1e30f); vc_assert(y == (ok ? clampf(z, lo, hi) : z), "the output is the clamped output of the unlimited system"); }
}
//@ harness sat1 prop=C16 mode=real
VC_HARNESS(sat1){ limited<1>(); }
//@ harness sat2 prop=C16 mode=real
VC_HARNESS(sat2){ limited<2>(); }
template<size_t ND> static void delayed(void){
    Pair<1> p, q; fill(p, INTEGRATION_TRAPEZOIDAL); fill(q, INTEGRATION_TRAPEZOIDAL); for (size_t i = 0; i <= 1u; ++i) { q.num[i] = p.num[i]; q.den[i] = p.den[i]; } continuousSystem s(p.num, p.den, p.st, 1u, p.m.dt), t(q.num, q.den, q.st, 1u, p.m.dt);
    float w[ND]; const float ini = inp("ini"); vc_assert(s.setDelay(w, ND, ini), "delay accepted"); float u[ND + 2u];
    for (size_t k = 0; k < ND + 2u; ++k) { u[k] = inp("u"); const float y = s.excite(u[k]), z = t.excite((k + 1u < ND) ? ini : u[k + 1u - ND]); vc_assume(z > -1e30f && z < 1e30f); vc_assert(y == z, "a window of n samples delays the input by n - 1 steps"); }
}
//@ harness delay1 prop=C16 mode=real
VC_HARNESS(delay1){ delayed<1>(); }
//@ harness delay3 prop=C16 mode=real
VC_HARNESS(delay3){ delayed<3>(); }
//@ harness tf prop=C16 mode=real
VC_HARNESS(tf){   // from a transfer function object
    const float b[3] = { inp("b0"), inp("b1"), inp("b2") }, a[3] = { lead(), inp("a1"), inp("a2") }; continuousTF<2> g(b, a); Pair<2> p; fill(p, INTEGRATION_TRAPEZOIDAL); for (size_t i = 0; i < 3u; ++i) { p.m.b[i] = b[i]; p.m.a[i] = a[i]; }
    continuousSystem s(g, p.m.dt); for (size_t k = 0; k < 3u; ++k) { const float u = inp("u"), want = p.m.step(u), y = s.excite(u); vc_assume(y > -1e30f && y < 1e30f); vc_close(y, want, 1000.0, "system from a transfer function object"); }
}
//@ harness config prop=C16 mode=uf
VC_HARNESS(config){
    float num[2] = { inp("b0"), inp("b1") }, den[2] = { lead(), inp("a1") }; nState x[1]; const size_t nd = vc_size("nd", 0u, 1u); const uint8_t nul = vc_u8("null"); const float u = inp("u");
    continuousSystem s((nul & 1u) ? nullptr : num, (nul & 2u) ? nullptr : den, (nul & 4u) ? nullptr : x, nd, 0.5f); const bool ok = (nul & 7u) == 0u && nd > 0u;
    vc_assert(s.isInitialized() == ok && s.getType() == (ok ? LTISYS_TYPE_CONTINUOUS : LTISYS_TYPE_UNKNOWN), "configured exactly when coefficients, states and order are given");
    float w[2]; if (!ok) vc_assert(!s.setDelay(w, 2u) && !s.setSaturation(0.0f, 1.0f) && !s.setInitStates() && !s.setIntegrationMethod(INTEGRATION_RECTANGULAR) && s.excite(u) == 0.0f, "an unconfigured system refuses settings and answers 0");
}
