// C17: numerical states: the integration and derivation rules are exact on the signals they are defined for. Float arithmetic as real arithmetic.
#include "vc.h"
#include "real_stubs.h"
#include <include/numa.hpp>
using namespace qlibs;
#ifdef QVC
static const uint64_t MAXH = 1ull << 40;
#else
static const uint64_t MAXH = 20u;
#endif
static const float L = 8.0f;
static float inp(const char* n){ return vc_f32in(n, -L, L); }
static float step_(void){ return vc_f32in("dt", 0.0078125f, 2.0f); }
static void near(float a, float b, const char* w){ vc_close(a, b, 200.0, w); }
// formulas, from any state
static float area(integrationMethod m, float s, float p, float q, float dt){
    switch (m) { case INTEGRATION_RECTANGULAR: return s*dt; case INTEGRATION_TRAPEZOIDAL: return (s + p)*dt/2.0f; case INTEGRATION_SIMPSON: return (s + 4.0f*p + q)*dt/6.0f; default: return (5.0f*s + 8.0f*p - q)*dt/12.0f; }
}
static float slope(derivationMethod m, float s, float p, float q, float dt){
    switch (m) { case DERIVATION_2POINTS: return (s - p)/dt; case DERIVATION_BACKWARD: return (3.0f*s - 4.0f*p + q)/(2.0f*dt); default: return (4.0f*p - 3.0f*q - s)/(2.0f*dt); }
}
template<integrationMethod M> static void integ(){
    const float x0 = inp("x0"), p = inp("p"), q = inp("q"), s = inp("s"), s2 = inp("s2"), dt = step_(); nState x(x0, p, q); x.setIntegrationMethod(M); vc_close(x(), x0, 1.0, "the value given");
    const float y = x.integrate(s, dt, false); near(y, x0 + area(M, s, p, q, dt), "integration rule"); vc_assert(y == x(), "the result is the new value");
    const float z = x.integrate(s, dt); near(z, y + area(M, s, p, q, dt), "without update the past samples stay"); const float v = x.integrate(s2, dt); near(v, z + area(M, s2, s, p, dt), "with update the sample becomes the most recent one");
    x.init(); vc_assert(x() == 0.0f, "init"); near(x.integrate(s, dt), area(M, s, 0.0f, 0.0f, dt), "init forgets the past");
}
//@ harness rect prop=C17 mode=real
VC_HARNESS(rect){ integ<INTEGRATION_RECTANGULAR>(); }
//@ harness trap prop=C17 mode=real
VC_HARNESS(trap){ integ<INTEGRATION_TRAPEZOIDAL>(); }
//@ harness simp prop=C17 mode=real
VC_HARNESS(simp){ integ<INTEGRATION_SIMPSON>(); }
//@ harness quad prop=C17 mode=real
VC_HARNESS(quad){ integ<INTEGRATION_QUADRATIC>(); }
template<derivationMethod M> static void deriv(){
    const float x0 = inp("x0"), p = inp("p"), q = inp("q"), s = inp("s"), s2 = inp("s2"), dt = step_(); nState x(x0, p, q); x.setDerivationMethod(M);
    const double sc = 1000.0/static_cast<double>(dt);
    vc_close(x.derive(s, dt, false), slope(M, s, p, q, dt), sc, "derivation rule"); vc_close(x.derive(s, dt), slope(M, s, p, q, dt), sc, "without update the past samples stay"); vc_close(x.derive(s2, dt), slope(M, s2, s, p, dt), sc, "with update the sample becomes the most recent one"); vc_assert(x() == x0, "derivation leaves the value");
}
//@ harness two prop=C17 mode=real
VC_HARNESS(two){ deriv<DERIVATION_2POINTS>(); }
//@ harness back prop=C17 mode=real
VC_HARNESS(back){ deriv<DERIVATION_BACKWARD>(); }
//@ harness forw prop=C17 mode=real
VC_HARNESS(forw){ deriv<DERIVATION_FORWARD>(); }
// exactness on polynomial signals after any number of steps: f(t) = c0 + c1*t + c2*t*t, t = t0 + k*dt
struct Poly { float c0, c1, c2; float f(float t) const { return c0 + c1*t + c2*t*t; } float F(float t) const { return c0*t + c1*t*t/2.0f + c2*t*t*t/3.0f; } float d(float t) const { return c1 + 2.0f*c2*t; } };
static float small(const char* n){ return vc_f32in(n, -2.0f, 2.0f); }
// from any time t0 on, and again one step later; the state then holds the samples of t and t - dt again, so this repeats for every step
static void exactIntegral(integrationMethod m, float c1, float c2){
    const Poly g = { small("c0"), c1, c2 }; const float dt = vc_f32in("dt", 0.125f, 1.0f), t = small("t0"), x0 = small("x0"); nState x(x0, g.f(t), g.f(t - dt)); x.setIntegrationMethod(m);
    vc_close(x.integrate(g.f(t + dt), dt), x0 + g.F(t + dt) - g.F(t), 200.0, "exact integral over the step"); vc_close(x.integrate(g.f(t + dt + dt), dt), x0 + g.F(t + dt + dt) - g.F(t), 200.0, "exact integral over two steps");
}
//@ harness exRect prop=C17 mode=real
VC_HARNESS(exRect){ exactIntegral(INTEGRATION_RECTANGULAR, 0.0f, 0.0f); }
//@ harness exTrap prop=C17 mode=real
VC_HARNESS(exTrap){ exactIntegral(INTEGRATION_TRAPEZOIDAL, small("c1"), 0.0f); }
//@ harness exSimp prop=C17 mode=real
VC_HARNESS(exSimp){ exactIntegral(INTEGRATION_SIMPSON, 0.0f, 0.0f); }
//@ harness exQuad prop=C17 mode=real
VC_HARNESS(exQuad){ exactIntegral(INTEGRATION_QUADRATIC, small("c1"), small("c2")); }
static void exactSlope(derivationMethod m, float c1, float c2, int at){
    const Poly g = { small("c0"), c1, c2 }; const float dt = vc_f32in("dt", 0.125f, 1.0f), t = small("t0"); nState x(0.0f, g.f(t - dt), g.f(t - dt - dt)); x.setDerivationMethod(m);
    vc_close(x.derive(g.f(t), dt), g.d((at == 0) ? t : t - dt - dt), 500.0, "exact slope"); vc_close(x.derive(g.f(t + dt), dt), g.d((at == 0) ? t + dt : t - dt), 500.0, "exact slope one step later");
}
//@ harness exTwo prop=C17 mode=real
VC_HARNESS(exTwo){ exactSlope(DERIVATION_2POINTS, small("c1"), 0.0f, 0); }
//@ harness exBack prop=C17 mode=real
VC_HARNESS(exBack){ exactSlope(DERIVATION_BACKWARD, small("c1"), small("c2"), 0); }
//@ harness exForw prop=C17 mode=real
VC_HARNESS(exForw){ exactSlope(DERIVATION_FORWARD, small("c1"), small("c2"), 2); }
// a long constant or accumulating history: trapezoidal by default
//@ harness constant prop=C17 mode=real cut=*
VC_HARNESS(constant){
    const float s = small("s"), dt = vc_f32in("dt", 0.125f, 1.0f), x0 = small("x0"); nState x(x0, s, s); if (vc_bool("q")) x.setIntegrationMethod(INTEGRATION_QUADRATIC); float X = x0; const size_t n = vc_size("n", 0u, MAXH);
    for (size_t i = 0; i < n; ++i) { X = X + s*dt; (void) x.integrate(s, dt); }
    vc_close(x(), X, 200.0, "a constant integrates to a straight line over any number of steps");
}
// arithmetic with states uses their current value
//@ harness ops prop=C17 mode=fp
VC_HARNESS(ops){
    const float v = vc_f32("v"), r = vc_f32("r"); nState x(v, vc_f32("p"), vc_f32("q")); vc_assert(vc_same(x(), v) && vc_same(x*r, v*r) && vc_same(r*x, r*v) && vc_same(x + r, v + r) && vc_same(r + x, r + v) && vc_same(x - r, v - r) && vc_same(r - x, r - v), "operators use the current value");
}
//@ harness opsdiv prop=C17 mode=uf
VC_HARNESS(opsdiv){ const float v = vc_f32("v"), r = vc_f32("r"); nState x(v, vc_f32("p"), vc_f32("q")); vc_assert(vc_same(x/r, v/r) && vc_same(r/x, r/v), "division uses the current value"); }
