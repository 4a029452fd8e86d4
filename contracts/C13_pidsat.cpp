// C13: the PID control action respects the configured limits, whatever happened before.
#include "vc.h"
#include "real_stubs.h"
#include <include/pid.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
#ifdef QVC
static const uint64_t MAXH = 1ull << 40;
extern "C" __attribute__((used)) float ST_log(float x){ return vc_uff1("log", x); }
extern "C" __attribute__((used)) float ST_expu(float x){ return vc_uff1("exp", x); }
static float val(const char* n){ return vc_f32(n); }
#else
static const uint64_t MAXH = 30u;
static float val(const char* n){ return (vc_u8("special") % 8u == 0u) ? vc_f32(n) : vc_f32in(n, -100.0f, 100.0f); }
#endif
static bool inside(float u, float lo, float hi){ return !(u > hi) && !(u < lo); }     // a NaN result of the arithmetic is neither
#ifdef QVC
#endif
// one operation a user may perform on a running controller
static void anyOp(pidController& c, const float& ref){
    const uint8_t op = vc_u8("op"); const float p = val("p"), q = val("q"), r = val("r");
    switch (op % 16u) {
        case 0: (void) c.setGains(p, q, r); break;
        case 1: (void) c.setParams(p, q, r); break;
        case 2: (void) c.setExtraGains(p, q); break;
        case 3: (void) c.setMode(vc_bool("man") ? pidMode::PID_MANUAL : pidMode::PID_AUTOMATIC); break;
        case 4: (void) c.setDirection(vc_bool("back") ? pidDirection::PID_BACKWARD : pidDirection::PID_FORWARD); break;
        case 5: (void) c.setReferenceWeighting(p, q); break;
        case 6: (void) c.setManualInput(p); break;
        case 7: (void) c.setEpsilon(p); break;
        case 8: (void) c.setDerivativeFilter(p); break;
        case 9: (void) c.setDerivativeFilterTimeConstant(p); break;
        case 10: (void) c.reset(); break;
        case 11: (void) c.setSeries(); break;
        case 12: (void) c.removeModelReferenceControl(); break;
        default: (void) c.control(p, q); break;
    }
    (void) ref;
}
//@ harness history prop=C13 mode=uf cut=* stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(history){
    pidController c; float dt = val("dt"); if (VC_NATIVE && !(dt > 0.0f)) dt = 0.1f; vc_assume(dt > 0.0f); vc_assert(c.setup(val("kc"), val("ki"), val("kd"), dt), "setup accepts a positive time step");
    const float lo = val("lo"), hi = val("hi"); vc_assert(c.setSaturation(lo, hi) == (hi > lo), "limits accepted exactly when max > min"); vc_assume(hi > lo);
    const float ref = val("ref"); const size_t n = vc_size("n", 0u, MAXH);
    for (size_t i = 0; i < n; ++i) anyOp(c, ref);
    const float u = c.control(val("w"), val("y")); vc_assert(inside(u, lo, hi), "the control action lies within the limits");
    const float lo2 = val("lo2"), hi2 = val("hi2"); const bool s = c.setSaturation(lo2, hi2); vc_assert(s == (hi2 > lo2), "limits accepted exactly when max > min");
    vc_assert(inside(c.control(val("w2"), val("y2")), s ? lo2 : lo, s ? hi2 : hi), "refused limits leave the old ones in force, accepted ones hold from the next action on");
}
//@ harness defaults prop=C13 mode=uf cut=* stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(defaults){
    pidController c; float dt = val("dt"); if (VC_NATIVE && !(dt > 0.0f)) dt = 0.1f; vc_assume(dt > 0.0f); const pidGains g = { val("kc"), val("ki"), val("kd") }; vc_assert(c.setup(g, dt), "setup accepts a positive time step");
    const float ref = 0.0f; const size_t n = vc_size("n", 0u, MAXH); for (size_t i = 0; i < n; ++i) anyOp(c, ref);
    vc_assert(inside(c.control(val("w"), val("y")), 0.0f, 100.0f), "without explicit limits the action lies within 0 and 100");
}
// with model reference control and with the auto tuner bound
//@ harness mrac prop=C13 mode=uf cut=* stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(mrac){
    pidController c; vc_assert(c.setup(val("kc"), val("ki"), val("kd"), 0.5f), "setup accepts a positive time step"); float lo = val("lo"), hi = val("hi"); vc_assume(hi > lo); (void) c.setSaturation(lo, hi);
    float ref = val("ref"); const float g = val("g"), a = val("a"); vc_assert(c.setModelReferenceControl(ref, g, a) == (g > 0.0f && a > 0.0f), "adaptation gains must be positive");
    const size_t n = vc_size("n", 0u, MAXH); for (size_t i = 0; i < n; ++i) { ref = val("m"); vc_assert(inside(c.control(val("w"), val("y")), lo, hi), "the control action lies within the limits"); }
}
//@ harness tuner prop=C13 mode=uf cut=* stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(tuner){
    pidController c; pidAutoTuning at; vc_assert(c.setup(val("kc"), val("ki"), val("kd"), 0.5f), "setup accepts a positive time step"); float lo = val("lo"), hi = val("hi"); vc_assume(hi > lo); (void) c.setSaturation(lo, hi);
    vc_assert(c.bindAutoTuning(at), "tuner bound"); vc_assert(c.enableAutoTuning(vc_u32("t")), "tuner enabled"); vc_assert(c.setAutoTuningControllerType(static_cast<pidType>(vc_u8("type") % 4u)), "type accepted");
    const size_t n = vc_size("n", 0u, MAXH); for (size_t i = 0; i < n; ++i) vc_assert(inside(c.control(val("w"), val("y")), lo, hi), "the control action lies within the limits");
}
//@ harness unset prop=C13 mode=uf stub=qlibs::ffmath::exp=>ST_expu,qlibs::ffmath::log=>ST_log
VC_HARNESS(unset){   // refused setups leave an unconfigured controller unconfigured
    pidController c; const float dt = val("dt"); vc_assume(!(dt > 0.0f)); vc_assert(!c.setup(val("kc"), val("ki"), val("kd"), dt), "a time step that is not positive is refused");
    pidAutoTuning at; const float p = val("p"), q = val("q"); const float ref = 0.0f;
    vc_assert(!c.setGains(p, q, p) && !c.setParams(p, q, p) && !c.setExtraGains(p, q) && !c.setSaturation(0.0f, 1.0f) && !c.setSeries() && !c.setEpsilon(p) && !c.setDerivativeFilter(0.5f) && !c.setDerivativeFilterTimeConstant(0.5f)
        && !c.setMode(pidMode::PID_MANUAL) && !c.setReferenceWeighting(p, q) && !c.setManualInput(p) && !c.reset() && !c.setModelReferenceControl(ref) && !c.removeModelReferenceControl() && !c.setDirection(pidDirection::PID_BACKWARD)
        && !c.bindAutoTuning(at) && !c.enableAutoTuning(10u) && !c.setAutoTuningParameters(0.5f, 0.5f, 0.9f) && !c.setAutoTuningControllerType(pidType::PID_TYPE_PI) && !c.isAutoTuningComplete() && !c.unbindAutoTuning(), "an unconfigured controller refuses every setting");
    const float w = val("w"); vc_assert(vc_same(c.control(w, val("y")), w), "an unconfigured controller passes the reference through");
}
