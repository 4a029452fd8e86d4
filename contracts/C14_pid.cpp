// C14: the PID control law, against a model run alongside an arbitrary history. Float arithmetic as real arithmetic.
#include "vc.h"
#include "real_stubs.h"
#include <cmath>
#include <include/pid.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
#ifdef QVC
static const uint64_t MAXH = 1ull << 40;
#else
static const uint64_t MAXH = 12u;
#endif
static const float L = 10.0f;
static float inp(const char* n){ return vc_f32in(n, -L, L); }
static float pos(const char* n){ return vc_f32in(n, 0.01f, L); }
static float mag(float x){ return (x < 0.0f) ? -x : x; }
static float dead(float e, float eps){ return (mag(e) <= eps) ? 0.0f : e; }      // errors up to epsilon count as none
static float sat(float x, float lo, float hi){ return (x > hi) ? hi : (x < lo) ? lo : x; }
// the documented law; integrals by the trapezoidal rule, derivative by the two-point difference
struct Law {
    float kc, ki, kd, dt, beta, eps, lo, hi, kw, kt, b, c, man; bool autom;
    float I, i1, d1, D, u1, m, b1, us;
    float step(float w, float y){ return core(w, y, 0.0f); }
    // the adaptation integrates while the previous action was not limited (its anti-windup feedback at most epsilon)
    float stepm(float w, float y, float m_, float ga, float al, float& th, float& t1){
        float theta = 0.0f;
        if (mag(u1) <= eps) { const float de = -ga*(y - m_)*m_/(al + m_*m_); th = th + 0.5f*(de + t1)*dt; t1 = de; theta = th; }
        return core(w, y, w*theta);
    }
    float core(float w, float y, float add){
        const float e = dead(w - y, eps), ec = dead(c*w - y, eps), eb = dead(b*w - y, eps);
        const float de = (ec - d1)/dt; d1 = ec;
        const float s = e + u1; I = I + 0.5f*(s + i1)*dt; i1 = s;
        D = de + beta*(D - de);
        const float v = kc*eb + ki*I + kd*D + add;
        const float t = kt*man + kw*(us - m); m = m + 0.5f*(t + b1)*dt; b1 = t;
        us = sat(autom ? v : m, lo, hi); u1 = kw*(us - v);
        return us;
    }
    void zero(){ I = i1 = d1 = D = u1 = m = b1 = us = 0.0f; }
};
static float gain(float k, bool back){ return back ? ((k > 0.0f) ? -k : k) : k; }      // backward: gains never positive
static void configure(pidController& c, Law& l){
    l.kc = inp("kc"); l.ki = inp("ki"); l.kd = inp("kd"); l.dt = vc_f32in("dt", 0.125f, 2.0f); l.lo = -L*vc_f32in("lo", 0.0f, 9.0f); l.hi = l.lo + vc_f32in("span", 0.01f, 200.0f);
    l.beta = vc_f32in("beta", 0.0f, 0.99f); l.eps = vc_f32in("eps", 0.0f, 1.0f); l.kw = vc_f32in("kw", 0.0f, 1.0f); l.kt = vc_f32in("kt", 0.0f, 1.0f); l.b = vc_f32in("b", 0.0f, 1.0f); l.c = vc_f32in("c", 0.0f, 1.0f); l.man = inp("man"); l.autom = !vc_bool("manual"); l.zero();
    vc_assert(c.setup(l.kc, l.ki, l.kd, l.dt) && c.setSaturation(l.lo, l.hi) && c.setDerivativeFilter(l.beta) && c.setEpsilon(l.eps) && c.setExtraGains(l.kw, l.kt) && c.setReferenceWeighting(l.b, l.c) && c.setManualInput(l.man) && c.setMode(l.autom ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL), "valid settings are accepted");
}
static double scaleOf(const Law& l){ return 1000.0 + 100.0*(mag(l.kc) + mag(l.ki) + mag(l.kd)/l.dt); }
//@ harness law prop=C14 mode=real cut=* stubset=real
VC_HARNESS(law){
    pidController c; Law l; configure(c, l); const size_t n = vc_size("hist", 0u, MAXH); const float* w = vc_farr("w", n, -L, L); const float* y = vc_farr("y", n, -L, L);
    for (size_t i = 0; i < n; ++i) { (void) l.step(w[i], y[i]); (void) c.control(w[i], y[i]); }
    const float r = inp("r"), p = inp("p"); const float want = l.step(r, p); vc_close(c.control(r, p), want, scaleOf(l), "PID: the documented control law");
}
// gains, manual input, mode, direction and resets may change before every step of the history
//@ harness changes prop=C14 mode=real cut=* stubset=real
VC_HARNESS(changes){
    pidController c; Law l; configure(c, l); const size_t n = vc_size("hist", 0u, MAXH); const float* w = vc_farr("w", n, -L, L); const float* y = vc_farr("y", n, -L, L);
    const float* kc = vc_farr("kcs", n, -L, L); const float* ki = vc_farr("kis", n, -L, L); const float* kd = vc_farr("kds", n, -L, L); const float* mi = vc_farr("mans", n, -L, L); const uint8_t* what = vc_arr<uint8_t>("what", n);
    for (size_t i = 0; i < n; ++i) {
        const bool back = (what[i] & 1u) != 0u, autom = (what[i] & 2u) != 0u;
        l.kc = gain(kc[i], back); l.ki = gain(ki[i], back); l.kd = gain(kd[i], back); l.man = mi[i]; l.autom = autom;
        (void) c.setGains(kc[i], ki[i], kd[i]); (void) c.setDirection(back ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD); (void) c.setManualInput(mi[i]); (void) c.setMode(autom ? pidMode::PID_AUTOMATIC : pidMode::PID_MANUAL);
        if ((what[i] & 28u) == 28u) { l.zero(); (void) c.reset(); }
        (void) l.step(w[i], y[i]); (void) c.control(w[i], y[i]);
    }
    const float r = inp("r"), p = inp("p"), g = inp("kc2"), g2 = inp("ki2"), g3 = inp("kd2"); const bool back = vc_bool("back");
    const pidGains pg = { g, g2, g3 }; vc_assert(c.setGains(pg) && c.setDirection(back ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD) && c.setManualInput(r) && c.setMode(pidMode::PID_AUTOMATIC), "valid settings are accepted");
    l.kc = gain(g, back); l.ki = gain(g2, back); l.kd = gain(g3, back); l.man = r; l.autom = true;
    const float want = l.step(r, p); vc_close(c.control(r, p), want, scaleOf(l), "PID: settings changed on the way act from the next step on");
}
//@ harness first prop=C14 mode=real stubset=real
VC_HARNESS(first){
    pidController c; Law l; configure(c, l); const float r = inp("r"), p = inp("p"); const float want = l.step(r, p); vc_close(c.control(r, p), want, scaleOf(l), "PID: the first action");
    const float r2 = inp("r2"), p2 = inp("p2"); const float want2 = l.step(r2, p2); vc_close(c.control(r2, p2), want2, scaleOf(l), "PID: the second action");
    vc_assert(c.reset(), "reset"); l.zero(); const float want3 = l.step(r, p); vc_close(c.control(r, p), want3, scaleOf(l), "PID: reset forgets the past and keeps the settings");
}
// what setup leaves in force, and the conversions between the forms of the gains
//@ harness settings prop=C14 mode=real stubset=real stub=qlibs::ffmath::exp=>ST_exp
VC_HARNESS(settings){
    pidController c; Law l; l.kc = inp("kc"); l.ki = inp("ki"); l.kd = inp("kd"); l.dt = vc_f32in("dt", 0.125f, 2.0f); l.beta = 0.98f; l.eps = 1e-30f; l.lo = 0.0f; l.hi = 100.0f; l.kw = l.kt = 1.0f; l.b = 1.0f; l.c = 0.0f; l.man = 0.0f; l.autom = true; l.zero();
    vc_assert(c.setup(l.kc, l.ki, l.kd, l.dt), "setup"); const float r = vc_f32in("r", 1.0f, L), p = -vc_f32in("p", 1.0f, L);
    const float want = l.step(r, p); vc_close(c.control(r, p), want, scaleOf(l), "PID: defaults");
    const float kc = pos("kc2"), ti = pos("ti"), td = pos("td"); vc_assert(c.setParams(kc, ti, td), "setParams"); vc_close(c.Kc, kc, 1.0, "PID: proportional gain"); vc_close(c.Ki*ti, kc, 1.0, "PID: integral gain = Kc/Ti"); vc_close(c.Kd, kc*td, 1.0, "PID: derivative gain = Kc*Td");
    vc_assert(c.setSeries(), "setSeries"); vc_close(c.Kc, kc*(1.0f + td/ti), 1.0, "PID: series form, proportional"); vc_close(c.Ki*ti, kc, 1.0, "PID: series form, integral"); vc_close(c.Kd, kc*td, 1.0, "PID: series form, derivative");
}
//@ harness weights prop=C14 mode=real stubset=real
VC_HARNESS(weights){
    pidController c; Law l; configure(c, l); const float r = inp("r"), p = inp("p"); 
    const float gb = inp("gb"), gc = inp("gc"); vc_assert(c.setReferenceWeighting(gb, gc), "weights"); l.b = sat(gb, 0.0f, 1.0f); l.c = sat(gc, 0.0f, 1.0f);
    const float be = inp("be"); const bool ok = c.setDerivativeFilter(be); vc_assert(ok == (be >= 0.0f && be < 1.0f), "PID: filter constants outside [0, 1) are refused"); if (ok) l.beta = be;
    const float want = l.step(r, p); vc_close(c.control(r, p), want, scaleOf(l), "PID: weights clamped to [0, 1], refused settings without effect");
}
//@ harness timeconst prop=C14 mode=real stubset=real
VC_HARNESS(timeconst){
    pidController c; Law l; configure(c, l); const float tf = vc_f32in("tf", -1.0f, L); vc_assume(tf < 0.0f || tf > 0.01f); const bool ok = c.setDerivativeFilterTimeConstant(tf); vc_assert(ok == (tf >= 0.0f), "PID: negative time constants are refused");
    if (ok) { l.beta = ffmath::exp(-l.dt/tf); } const float r = inp("r"), p = inp("p"); const float want = l.step(r, p); vc_close(c.control(r, p), want, scaleOf(l), "PID: time constant of the derivative filter");
}
// model reference control: w*theta is added, theta the integral of the modified MIT rule; no adaptation while the action is limited
//@ harness mrac prop=C14 mode=real cut=* stubset=real
VC_HARNESS(mrac){
    pidController c; Law l; configure(c, l); float ref = inp("ref"); const float ga = pos("gamma"), al = pos("alpha"); vc_assert(c.setModelReferenceControl(ref, ga, al), "positive adaptation gains accepted");
    float th = 0.0f, t1 = 0.0f; const size_t n = vc_size("hist", 0u, MAXH); const float* w = vc_farr("w", n, -L, L); const float* y = vc_farr("y", n, -L, L); const float* m = vc_farr("m", n, -L, L);
    for (size_t i = 0; i < n; ++i) { ref = m[i]; (void) l.stepm(w[i], y[i], m[i], ga, al, th, t1); (void) c.control(w[i], y[i]); }
    const float r = inp("r"), p = inp("p"); ref = inp("mr"); const float want = l.stepm(r, p, ref, ga, al, th, t1); vc_close(c.control(r, p), want, scaleOf(l) + 1e5, "PID: model reference control adds the adapted reference");
    vc_assert(c.removeModelReferenceControl(), "removed"); const float want2 = l.step(r, p); vc_close(c.control(r, p), want2, scaleOf(l) + 1e5, "PID: removed model reference control has no further effect");
}
// auto tuning: the gains stay until the requested number of steps has passed and after the tuning is complete
static pidController* g_c; static float g_k, g_i, g_d; static bool g_done;
static bool kept(void){ return vc_same(g_c->Kc, g_k) && vc_same(g_c->Ki, g_i) && vc_same(g_c->Kd, g_d); }
#ifdef QVC
extern "C" __attribute__((used)) float ST_log(float x){ return vc_uff1("log", x); }
extern "C" __attribute__((used)) float ST_expu(float x){ return vc_uff1("exp", x); }
extern "C" __attribute__((used)) bool INV_kept(uint64_t){ return kept() && g_c->isAutoTuningComplete() == g_done; }
#endif
//@ harness tuner prop=C14 mode=uf cut=* counters inv=INV_kept stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(tuner){
    pidController c; pidAutoTuning at; g_c = &c; g_k = inp("kc"); g_i = inp("ki"); g_d = inp("kd"); const float dt = vc_f32in("dt", 0.125f, 2.0f); vc_assert(c.setup(g_k, g_i, g_d, dt), "setup");
    vc_assert(!c.isAutoTuningComplete(), "no tuner: not complete"); vc_assert(c.bindAutoTuning(at) && kept() && !c.isAutoTuningComplete(), "binding changes no gain"); const uint32_t n = vc_u32("n"); vc_assume(n > 0u && n < 0xFFFFFFFEu); if (VC_NATIVE) vc_assume(n < 40u);
    vc_assert(c.enableAutoTuning(n) && !c.isAutoTuningComplete(), "enabled: not complete"); g_done = false; uint32_t m = vc_u32("m"); if (VC_NATIVE) m = m % n; vc_assume(m < n); const float* w = vc_farr("w", n, -L, L); const float* y = vc_farr("y", n, -L, L);
    for (uint32_t i = 0; i < m; ++i) { (void) c.control(w[i], y[i]); vc_assert(kept() && !c.isAutoTuningComplete(), "PID tuner: no gain changes before the requested steps have passed"); }
    (void) c.control(w[m], y[m]); if (m + 1u < n) vc_assert(kept() && !c.isAutoTuningComplete(), "PID tuner: no gain changes before the requested steps have passed"); else vc_assert(kept() || c.isAutoTuningComplete(), "PID tuner: gains change only when the tuning completes");
}
//@ harness tuned prop=C14 mode=uf cut=* counters inv=INV_kept stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(tuned){
    pidController c; pidAutoTuning at; g_c = &c; const float dt = vc_f32in("dt", 0.125f, 2.0f); vc_assert(c.setup(inp("kc"), inp("ki"), inp("kd"), dt), "setup"); vc_assert(c.bindAutoTuning(at) && c.enableAutoTuning(1u), "tuner");
    (void) c.control(inp("w0"), inp("y0")); (void) c.control(inp("w1"), inp("y1")); vc_assume(c.isAutoTuningComplete()); g_done = true; g_k = c.Kc; g_i = c.Ki; g_d = c.Kd;
    const size_t n = vc_size("n", 0u, MAXH); const float* w = vc_farr("w", n, -L, L); const float* y = vc_farr("y", n, -L, L);
    for (size_t i = 0; i < n; ++i) { (void) c.control(w[i], y[i]); vc_assert(kept() && c.isAutoTuningComplete(), "PID tuner: a completed tuning changes nothing any more"); }
    vc_assert(c.unbindAutoTuning() && !c.unbindAutoTuning() && !c.isAutoTuningComplete() && kept(), "PID tuner: unbinding keeps the gains");
}
