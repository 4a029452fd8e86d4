// C20: aggregation and defuzzification. Float arithmetic as real arithmetic unless a harness says otherwise. The consequent sets are arbitrary
// functions (custom membership functions), the rule strengths are arbitrary numbers in [0,1]; all of the 100 evaluation points are covered.
#include "vc.h"
#include "real_stubs.h"
#include <include/fis.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
using namespace qlibs::fis;
static float unit(const char* n){ return vc_f32in(n, 0.0f, 1.0f); }
struct Peek : ioBase { static real_t val(const ioBase* p){ return p->*(&Peek::value); } };
#ifdef QVC
extern "C" __attribute__((used)) bool ST_same(float a, float b, float){ return a == b; }
static float muA(float x, const real_t*){ const float v = vc_uff1("setA", x); vc_assume(v >= 0.0f && v <= 1.0f); return v; }
static float muB(float x, const real_t*){ const float v = vc_uff1("setB", x); vc_assume(v >= 0.0f && v <= 1.0f); return v; }
#else
static float muA(float x, const real_t* p){ const float a = p[0], w = p[1]; float t = (x - a)/w; t = (t < 0.0f) ? -t : t; t = (t > 1.0f) ? 0.0f : 1.0f - t; return static_cast<float>(static_cast<int>(t*4.0f))/4.0f; } // quantised: ties do occur
static float muB(float x, const real_t* p){ return muA(x, p); }
#endif
static real_t setA(const ioBase* const in, const real_t* p, const size_t){ return muA(Peek::val(in), p); }
static real_t setB(const ioBase* const in, const real_t* p, const size_t){ return muB(Peek::val(in), p); }
static const rules T2[] = { FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END IF 0 IS 1 THEN 0 IS 1 END FIS_RULES_END };
static const rules TN[] = { FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS_NOT 0 END IF 0 IS 1 THEN 0 IS 1 END FIS_RULES_END };
static const rules TO[] = { FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 AND 1 IS 1 END IF 0 IS 1 THEN 1 IS 0 END FIS_RULES_END };
enum ak { AMAX, APROBOR, ASUM };
static float lim(float x){ return (x < 0.0f) ? 0.0f : (x > 1.0f) ? 1.0f : x; }
static float agg(ak k, float a, float b){ return (k == AMAX) ? ((a > b) ? a : b) : (k == APROBOR) ? a + b - a*b : lim(a + b); }
static float imp(bool prod, float w, float m){ return prod ? w*m : (w < m) ? w : m; }
static const size_t NP = 100;
template<size_t NO> struct Sys {
    input in[1]; output out[NO]; mf mi[2], mo[2]; real_t w[2]; real_t s[2], pa[2], pb[2]; real_t xd[NO][NP], yd[NO][NP]; float lo[NO], hi[NO]; instance f;
    explicit Sys(const rules* t){
        vc_assert(f.setup(Mamdani, in, out, mi, mo, t, w), "setup"); vc_assert(f.getNumberOfPoints() == NP, "evaluation points"); for (int i = 0; i < 2; ++i) { s[i] = unit("s"); pa[i] = vc_f32in("pa", 1.0f, 9.0f); pb[i] = vc_f32in("pb", 1.0f, 9.0f); (void) f.setupInputMF(0, static_cast<tag>(i), constantmf, &s[i]); }
        (void) f.setupOutputMF(0, 0, setA, pa); (void) f.setupOutputMF(0, 1, setB, pb);
        for (size_t o = 0; o < NO; ++o) { lo[o] = vc_f32in("lo", -10.0f, 10.0f); hi[o] = lo[o] + vc_f32in("span", 1.0f, 20.0f); vc_assert(f.setupOutput(static_cast<tag>(o), lo[o], hi[o]), "range"); vc_assert(out[o].storeAggregatedRegion(xd[o], yd[o]), "store"); }
    }
    void run(){ vc_assert(f.fuzzify() && f.inference(), "inference"); vc_assert(f.deFuzzify(), "defuzzification"); }
    float y(size_t o){ float v = 0.0f; vc_assert(f.getOutput(static_cast<tag>(o), v), "output"); return v; }
    float clip(size_t o, float v){ return (v < lo[o]) ? lo[o] : (v > hi[o]) ? hi[o] : v; }
    void grid(size_t o){ for (size_t k = 0; k < NP; ++k) vc_close(xd[o][k], lo[o] + (static_cast<float>(k) + 0.5f)*(hi[o] - lo[o])/100.0f, 20.0, "evaluation points cover the range evenly"); }
};
static void region(ak a, bool prod, bool neg){
    Sys<1> q(neg ? TN : T2); vc_assert(q.f.setParameter(FIS_Aggregation, (a == AMAX) ? FIS_MAX : (a == APROBOR) ? FIS_PROBOR : FIS_SUM) && q.f.setParameter(FIS_Implication, prod ? FIS_PROD : FIS_MIN), "methods"); q.run(); q.grid(0);
    for (size_t k = 0; k < NP; ++k) { const float x = q.xd[0][k], ma = muA(x, q.pa), mb = muB(x, q.pb); const float e = agg(a, imp(prod, q.w[0], neg ? 1.0f - ma : ma), imp(prod, q.w[1], mb)); vc_close(q.yd[0][k], e, 1.0, "aggregated set at each evaluation point"); }
}
//@ harness rMax prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(rMax){ region(AMAX, false, false); }
//@ harness rMaxP prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(rMaxP){ region(AMAX, true, true); }
//@ harness rOr prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(rOr){ region(APROBOR, false, true); }
//@ harness rSum prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(rSum){ region(ASUM, true, false); }
// each output has its own aggregated set
//@ harness two prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(two){
    Sys<2> q(TO); q.run(); q.grid(0); q.grid(1);
    for (size_t k = 0; k < NP; ++k) { vc_close(q.yd[0][k], imp(false, q.w[0], muA(q.xd[0][k], q.pa)), 1.0, "first output"); vc_close(q.yd[1][k], agg(AMAX, imp(false, q.w[0], muB(q.xd[1][k], q.pb)), imp(false, q.w[1], muA(q.xd[1][k], q.pa))), 1.0, "second output"); }
    for (size_t o = 0; o < 2; ++o) { float n = 0.0f, d = 0.0f; for (size_t k = 0; k < NP; ++k) { n = n + q.xd[o][k]*q.yd[o][k]; d = d + q.yd[o][k]; } if (d > 0.01f) vc_close(q.y(o), q.clip(o, n/d), 20.0, "centroid of each output"); }
}
//@ harness centr prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(centr){
    Sys<1> q(T2); q.run();
    float n = 0.0f, d = 0.0f; for (size_t k = 0; k < NP; ++k) { n = n + q.xd[0][k]*q.yd[0][k]; d = d + q.yd[0][k]; } vc_assume(d > 0.01f); vc_close(q.y(0), q.clip(0, n/d), 20.0, "centroid");
}
//@ harness bis prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(bis){
    Sys<1> q(T2); vc_assert(q.f.setDeFuzzMethod(bisector), "method"); q.run();
    float d = 0.0f; for (size_t k = 0; k < NP; ++k) d = d + q.yd[0][k]; vc_assume(d > 0.01f); float a = 0.0f;
#ifdef QVC
    float e = 0.0f; bool found = false; for (size_t k = 0; k < NP; ++k) { a = a + q.yd[0][k]; if (!found && a >= d/2.0f) { found = true; e = q.xd[0][k]; } } vc_close(q.y(0), q.clip(0, e), 20.0, "bisector: the first point where half of the area is reached");
#else
    float b = 0.0f; const float y = q.y(0); for (size_t k = 0; k < NP; ++k) { if (q.xd[0][k] <= y) a += q.yd[0][k]; if (q.xd[0][k] < y) b += q.yd[0][k]; } vc_assert(a >= 0.4999f*d && b <= 0.5001f*d, "bisector: the first point where half of the area is reached");
#endif
}
//@ harness largest prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(largest){
    Sys<1> q(T2); vc_assert(q.f.setDeFuzzMethod(lom), "method"); q.run(); float m = -1.0f, e = 0.0f; for (size_t k = 0; k < NP; ++k) if (q.yd[0][k] >= m) { m = q.yd[0][k]; e = q.xd[0][k]; } vc_close(q.y(0), q.clip(0, e), 20.0, "largest of maximum");
}
//@ harness smallest prop=C20 mode=real stubset=real unroll=128 prune
VC_HARNESS(smallest){
    Sys<1> q(T2); vc_assert(q.f.setDeFuzzMethod(som), "method"); q.run(); float m = -1.0f, e = 0.0f; for (size_t k = 0; k < NP; ++k) if (q.yd[0][k] > m) { m = q.yd[0][k]; e = q.xd[0][k]; } vc_close(q.y(0), q.clip(0, e), 20.0, "smallest of maximum");
}
// the middle of the first plateau where the set is maximal
//@ harness middle prop=C20 mode=real stubset=real unroll=128 bounded prune note="12 evaluation points in the proof, the real 100 in the search" stub=qlibs::ffmath::isEqual=>ST_same
VC_HARNESS(middle){
    Sys<1> q(T2); vc_assert(q.f.setDeFuzzMethod(mom), "method");
#ifdef QVC
    const size_t np = 12; q.f.nPoints = np; vc_assert(q.f.setupOutput(0, q.lo[0], q.hi[0]), "range");
#else
    const size_t np = NP;
#endif
    q.run(); float m = -1.0f, a = 0.0f, b = 0.0f; bool on = false;
    for (size_t k = 0; k < np; ++k) { const float v = q.yd[0][k], x = q.xd[0][k]; if (v > m) { m = v; a = x; b = x; on = true; } else if (v < m) on = false; else if (on) b = x; }
    vc_close(q.y(0), q.clip(0, (a + b)/2.0f), 20.0, "middle of maximum");
}
// in floating point, whatever the sets, strengths and evaluation yield: outputs never leave their range
static float any(const char* n){ return vc_f32(n); }
#ifdef QVC
static real_t wild(const ioBase* const in, const real_t* p, const size_t){ return vc_uff2("wild", Peek::val(in), p[0]); }
#else
static real_t wild(const ioBase* const in, const real_t* p, const size_t){ return p[0]*Peek::val(in); }
#endif
static void confined(type t, deFuzzMethod m){
    input in[1]; output out[1]; mf mi[2], mo[2]; real_t w[2], s[2] = { any("s0"), any("s1") }, z[2] = { any("z0"), any("z1") }; instance f; vc_assert(f.setup(t, in, out, mi, mo, T2, w), "setup"); const float lo = any("lo"), hi = any("hi"); vc_assume(lo <= hi);
    for (tag i = 0; i < 2; ++i) { (void) f.setupInputMF(0, i, wild, &s[i]); (void) f.setupOutputMF(0, i, wild, &z[i]); } (void) f.setupOutput(0, lo, hi); vc_assert(f.setDeFuzzMethod(m), "method"); (void) f.setInput(0, any("x"));
    vc_assert(f.fuzzify() && f.inference() && f.deFuzzify(), "run"); vc_assert(w[0] >= 0.0f && w[0] <= 1.0f && w[1] >= 0.0f && w[1] <= 1.0f, "strengths lie in [0,1]"); float y = 0.0f; (void) f.getOutput(0, y); vc_assert(y >= lo && y <= hi, "the output lies in its range");
}
//@ harness cCen prop=C20 mode=uf unroll=128 prune plan=abs+z3+cvc5+z3long
VC_HARNESS(cCen){ confined(Mamdani, centroid); }
//@ harness cAvg prop=C20 mode=uf unroll=128 prune
VC_HARNESS(cAvg){ confined(Sugeno, wtaver); }
//@ harness cSum prop=C20 mode=uf unroll=128 prune
VC_HARNESS(cSum){ confined(Sugeno, wtsum); }
//@ harness cTsu prop=C20 mode=uf unroll=128 prune
VC_HARNESS(cTsu){ confined(Tsukamoto, wtaver); }
// a Tsukamoto system: weighted average of the consequents taken at the firing strengths
//@ harness tsuk prop=C20 mode=real stubset=real unroll=16 prune
VC_HARNESS(tsuk){
    input in[1]; output out[1]; mf mi[2], mo[2]; real_t w[2]; const real_t s[2] = { unit("s0"), unit("s1") }, p[2] = { -3.0f, 4.0f }; const float x = vc_f32in("x", -10.0f, 10.0f); instance f; vc_assert(f.setup(Tsukamoto, in, out, mi, mo, T2, w), "setup"); (void) f.setupInput(0, -10.0f, 10.0f); (void) f.setupOutput(0, -100.0f, 100.0f);
    (void) f.setupInputMF(0, 0, constantmf, &s[0]); (void) f.setupInputMF(0, 1, constantmf, &s[1]); (void) f.setupOutputMF(0, 0, tlinsmf, p); (void) f.setupOutputMF(0, 1, tlinzmf, p); f << static_cast<tag>(0) << x; vc_assert(f.fuzzify() && f.inference() && f.deFuzzify(), "run");
    vc_assume(s[0] + s[1] > 0.01f); vc_close(f[0]*(s[0] + s[1]), s[0]*(-3.0f + 7.0f*s[0]) + s[1]*(4.0f - 7.0f*s[1]), 20.0, "weighted average of the values induced by the strengths");
}
// storing the aggregated set needs room for every point
//@ harness store prop=C20 mode=real stubset=real
VC_HARNESS(store){
    input in[1]; output out[1]; mf mi[1], mo[1]; real_t w[1], xd[4], yd[4]; instance f; vc_assert(!out[0].storeAggregatedRegion(xd, yd, 1000), "not before setup"); (void) f.setup(Mamdani, in, 1, out, 1, mi, 1, mo, 1, T2, 1, w); const size_t n = vc_size("n", 0, 200);
    vc_assert(!out[0].storeAggregatedRegion(nullptr, yd, n) && !out[0].storeAggregatedRegion(xd, nullptr, n) && !out[0].storeAggregatedRegion(xd, yd), "refused"); vc_assert(out[0].storeAggregatedRegion(xd, yd, n) == (n >= 100), "room for every point");
}
