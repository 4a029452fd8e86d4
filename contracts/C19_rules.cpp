// C19: evaluation of fuzzy rule tables. Float arithmetic as real arithmetic, observed through the public interface: rule strengths land in
// the array given at setup, a Sugeno system with constant consequents shows which strength reaches which output.
#include "vc.h"
#include "real_stubs.h"
#include <include/fis.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
using namespace qlibs::fis;
static float unit(const char* n){ return vc_f32in(n, 0.0f, 1.0f); }
static float num(const char* n){ return vc_f32in(n, -10.0f, 10.0f); }
static const size_t NM = 3, NR = 3, NI = 2;
enum opk { MINO, PRODO, MAXO, PROBORO };
static float app(opk o, float a, float b){ switch (o) { case MINO: return (a < b) ? a : b; case PRODO: return a*b; case MAXO: return (a > b) ? a : b; default: return a + b - a*b; } }
// one rule: premises joined from left to right, then one or two consequents
struct Prem { uint8_t in, set; bool neg; };
struct Rule { uint8_t n; Prem p[3]; bool orc[2]; uint8_t m; uint8_t out[2], oset[2]; };
static uint8_t below(const char* n, uint8_t k){ const uint8_t v = vc_u8(n); vc_assume(v < k); return v; }
static Rule anyRule(uint8_t np, uint8_t nm, uint8_t nout){
    Rule r; r.n = np; r.m = nm; for (int i = 0; i < 3; ++i) { r.p[i].in = below("in", NI); r.p[i].set = below("set", NM); r.p[i].neg = vc_bool("not"); }
    for (int i = 0; i < 2; ++i) { r.orc[i] = vc_bool("or"); r.out[i] = below("out", nout); r.oset[i] = below("oset", NM); } return r;
}
static size_t put(rules* t, size_t k, const Rule& r){
    for (uint8_t i = 0; i < r.n; ++i) { t[k++] = static_cast<rules>(r.p[i].in); t[k++] = static_cast<rules>(r.p[i].neg ? -(r.p[i].set + 1) : (r.p[i].set + 1)); t[k++] = (i + 1 == r.n) ? Q_FIS_THEN : (r.orc[i] ? Q_FIS_OR : Q_FIS_AND); }
    for (uint8_t i = 0; i < r.m; ++i) { if (i > 0) t[k++] = Q_FIS_AND; t[k++] = static_cast<rules>(r.out[i]); t[k++] = static_cast<rules>(r.oset[i] + 1); }
    return k;
}
static float strength(const Rule& r, const float* mu, opk a, opk o){
    float s = 0.0f; for (uint8_t i = 0; i < r.n; ++i) { const float m = r.p[i].neg ? 1.0f - mu[r.p[i].set] : mu[r.p[i].set]; s = (i == 0) ? m : app(r.orc[i - 1] ? o : a, s, m); } return s;
}
// a system with NM input sets of memberships mu (as if given by the fuzzification) and NM constant consequents z
template<size_t NO> struct Sys {
    input in[NI]; output out[NO]; mf mi[NM], mo[NM]; real_t w[NR]; real_t mu[NM], z[NM], wt[NR]; instance f; rules t[64]; bool ok;
    Sys(const type ty, const Rule* r, size_t n) : ok(true) {
        size_t k = 0; t[k++] = Q_FIS_RULES_BEGIN; for (size_t i = 0; i < n; ++i) k = put(t, k, r[i]); t[k++] = Q_FIS_RULES_END;
        for (size_t i = 0; i < NR; ++i) w[i] = -1.0f;
        vc_assert(f.setup(ty, in, NI, out, NO, mi, NM, mo, NM, t, n, w), "setup");
        for (size_t i = 0; i < NM; ++i) { mu[i] = unit("mu"); z[i] = num("z"); vc_assert(f.setupInputMF(0, static_cast<tag>(i), constantmf, &mu[i]) && f.setupOutputMF(0, static_cast<tag>(i), constantmf, &z[i]), "sets"); }
        for (size_t i = 0; i < NO; ++i) vc_assert(f.setupOutput(static_cast<tag>(i), -1000.0f, 1000.0f), "output range");
    }
    void ops(opk a, opk o){ vc_assert(f.setParameter(FIS_AND, (a == MINO) ? FIS_MIN : FIS_PROD) && f.setParameter(FIS_OR, (o == MAXO) ? FIS_MAX : FIS_PROBOR), "operators"); }
};
static void same(float a, float b, const char* w){ vc_close(a, b, 1.0, w); }
template<uint8_t NP> static void premises(opk a, opk o){
    Rule r[1] = { anyRule(NP, 1, 1) }; Sys<1> s(Sugeno, r, 1); s.ops(a, o);
    vc_assert(s.f.fuzzify() && s.f.inference(), "a well formed table is accepted"); const float w = s.w[0]; same(w, strength(r[0], s.mu, a, o), "strength of the rule"); vc_assert(w >= 0.0f && w <= 1.0f, "in [0,1]");
    if (vc_bool("again")) { vc_assert(s.f.inference(), "again"); same(s.w[0], w, "nothing is left over from the previous run"); }
}
//@ harness one prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(one){ premises<1>(MINO, MAXO); }
//@ harness two0 prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(two0){ premises<2>(MINO, MAXO); }
//@ harness two1 prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(two1){ premises<2>(PRODO, MAXO); }
//@ harness two2 prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(two2){ premises<2>(MINO, PROBORO); }
//@ harness two3 prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(two3){ premises<2>(PRODO, PROBORO); }
//@ harness three0 prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(three0){ premises<3>(MINO, MAXO); }
//@ harness three1 prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(three1){ premises<3>(PRODO, PROBORO); }
// the operators in use before any is chosen
//@ harness defaults prop=C19 mode=real stubset=real unroll=16 prune
VC_HARNESS(defaults){ Rule r[1] = { anyRule(2, 1, 1) }; Sys<1> s(Sugeno, r, 1); vc_assert(s.f.fuzzify() && s.f.inference(), "run"); same(s.w[0], strength(r[0], s.mu, MINO, MAXO), "minimum for AND, maximum for OR by default"); }
// several rules, weights, and outputs
template<uint8_t N0, uint8_t N1, uint8_t N2, uint8_t M> static void table(){
    Rule r[3] = { anyRule(N0, M, 1), anyRule(N1, 1, 1), anyRule(N2, M, 1) }; Sys<1> s(Sugeno, r, 3); const bool wt = vc_bool("weights"); for (size_t i = 0; i < 3; ++i) s.wt[i] = vc_f32in("weight", -0.5f, 1.5f);
    if (wt) vc_assert(s.f.setRuleWeights(s.wt), "weights"); vc_assert(!s.f.setRuleWeights(nullptr), "no weights");
    vc_assert(s.f.fuzzify() && s.f.inference(), "a well formed table is accepted");
    for (size_t i = 0; i < 3; ++i) { const float g = s.wt[i], c = wt ? ((g < 0.0f) ? 0.0f : (g > 1.0f) ? 1.0f : g) : 1.0f; same(s.w[i], strength(r[i], s.mu, MINO, MAXO)*c, "strength of each rule"); }
}
//@ harness table prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(table){ table<1, 2, 1, 1>(); }
//@ harness table2 prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(table2){ table<2, 1, 2, 1>(); }
// outputs of a Sugeno system: every rule contributes to the outputs it names, with its own strength
static Rule fixedRule(uint8_t set, uint8_t m, uint8_t o0, uint8_t z0, uint8_t o1, uint8_t z1){ Rule r = { 1, { { 0, set, false }, { 0, 0, false }, { 0, 0, false } }, { false, false }, m, { o0, o1 }, { z0, z1 } }; return r; }
template<size_t NO> static void outs(const Rule* r, size_t n, bool SUM){
    Sys<NO> s(Sugeno, r, n); if (SUM) vc_assert(s.f.setDeFuzzMethod(wtsum), "weighted sum"); if (vc_bool("weights")) { s.wt[0] = unit("wt0"); s.wt[1] = unit("wt1"); s.wt[2] = unit("wt2"); (void) s.f.setRuleWeights(s.wt); }
    vc_assert(s.f.fuzzify() && s.f.inference() && s.f.deFuzzify(), "run"); for (size_t i = 0; i < n; ++i) vc_assert(s.w[i] >= 0.0f && s.w[i] <= 1.0f, "strength in [0,1]");
    for (size_t o = 0; o < NO; ++o) {
        float wz = 0.0f, w = 0.0f; for (size_t i = 0; i < n; ++i) for (uint8_t c = 0; c < r[i].m; ++c) if (r[i].out[c] == o) { wz = wz + s.w[i]*s.z[r[i].oset[c]]; w = w + s.w[i]; }
        float y = 0.0f; vc_assert(s.f.getOutput(static_cast<tag>(o), y), "output"); vc_assert(y >= -1000.0f && y <= 1000.0f, "in range"); vc_assert(y == s.f[static_cast<tag>(o)], "both ways of reading an output");
        if (SUM) vc_close(y, wz, 50.0, "weighted sum"); else if (w > 0.01f) vc_close(y*w, wz, 50.0, "weighted average");
    }
}
template<size_t NO> static void outsOf(uint8_t a, uint8_t b, uint8_t c, uint8_t d, uint8_t e, bool sum){ const Rule r[3] = { fixedRule(0, 2, a, 0, b, 1), fixedRule(1, 1, c, 2, 0, 0), fixedRule(2, 2, d, 1, e, 0) }; outs<NO>(r, 3, sum); }
static void outsOne(bool sum){ const Rule r[3] = { fixedRule(0, 1, 0, 2, 0, 0), fixedRule(1, 1, 0, 0, 0, 0), fixedRule(2, 1, 0, 1, 0, 0) }; outs<1>(r, 3, sum); }
//@ harness out1 prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(out1){ outsOne(false); }
//@ harness out1s prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(out1s){ outsOne(true); }
//@ harness out2 prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(out2){ outsOf<2>(0, 1, 1, 1, 0, false); }
//@ harness out2s prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(out2s){ outsOf<2>(1, 0, 0, 0, 1, true); }
//@ harness out3 prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(out3){ outsOf<3>(2, 0, 1, 1, 2, false); }
// what is refused
//@ harness refuse prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(refuse){
    Rule r[2] = { anyRule(2, 1, 1), anyRule(1, 1, 1) }; Sys<1> s(Sugeno, r, 2); (void) s.f.fuzzify(); vc_assert(s.f.inference(), "well formed"); const rules bad = static_cast<rules>(vc_u8("bad"));
    switch (vc_u8("what") % 5u) {
        case 0: vc_assume(bad != Q_FIS_RULES_BEGIN); vc_assume(bad != Q_FIS_RULES_END); s.t[0] = bad; break;                         // no begin
        case 1: vc_assume(bad != Q_FIS_AND && bad != Q_FIS_OR && bad != Q_FIS_THEN); s.t[3] = bad; break;  // unknown connector
        case 2: vc_assume(bad < 0 || bad >= static_cast<rules>(NI)); vc_assume(bad != Q_FIS_RULES_END); s.t[4] = bad; break;       // no such input
        case 3: vc_assume(bad < 0 || bad >= static_cast<rules>(NI)); vc_assume(bad != Q_FIS_RULES_END); s.t[1] = bad; break;
        default: vc_assume(bad != Q_FIS_RULES_END); s.t[14] = bad; break;                                  // no end after the last rule
    }
    vc_assert(!s.f.inference(), "a malformed table is refused");
}
//@ harness count prop=C19 mode=real stubset=real unroll=24 prune
VC_HARNESS(count){
    Rule r[2] = { anyRule(1, 1, 1), anyRule(1, 1, 1) }; Sys<1> s(Sugeno, r, 2); vc_assert(s.f.setup(Sugeno, s.in, NI, s.out, 1, s.mi, NM, s.mo, NM, s.t, 3, s.w), "setup"); vc_assert(!s.f.inference(), "fewer rules than announced");
    vc_assert(s.f.setup(Sugeno, s.in, NI, s.out, 1, s.mi, NM, s.mo, NM, s.t, 1, s.w), "setup"); s.w[1] = -5.0f; vc_assert(!s.f.inference() && s.w[1] == -5.0f, "more rules than announced");
}
// configuration: which values each parameter takes
//@ harness config prop=C19 mode=real stubset=real
VC_HARNESS(config){
    input in[1]; output out[1]; mf mi[1], mo[1]; real_t w[1]; static const rules t[] = { FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END FIS_RULES_END }; instance f; const type ty = static_cast<type>(vc_u32("type") % 4u); const uint32_t mask = vc_u32("mask");
    const bool ok = f.setup(ty, (mask & 1u) ? in : nullptr, (mask & 2u) ? 1u : 0u, (mask & 4u) ? out : nullptr, (mask & 8u) ? 1u : 0u, (mask & 16u) ? mi : nullptr, (mask & 32u) ? 1u : 0u, (mask & 64u) ? mo : nullptr, (mask & 128u) ? 1u : 0u, (mask & 256u) ? t : nullptr, (mask & 512u) ? 1u : 0u, w);
    vc_assert(ok == (ty <= Tsukamoto && (mask & 1023u) == 1023u), "setup refuses missing parts");
    const parameter p = static_cast<parameter>(vc_u32("p") % 8u); const paramValue v = static_cast<paramValue>(vc_u32("v") % 8u); const deFuzzMethod m = static_cast<deFuzzMethod>(vc_u32("m") % 8u);
    const bool want = (p == FIS_Implication || p == FIS_AND) ? (v == FIS_MIN || v == FIS_PROD) : (p == FIS_OR) ? (v == FIS_MAX || v == FIS_PROBOR) : (p == FIS_Aggregation) ? (v == FIS_MAX || v == FIS_PROBOR || v == FIS_SUM) : false; vc_assert(f.setParameter(p, v) == want, "parameter values");
    if (ok) vc_assert(f.setDeFuzzMethod(m) == ((ty == Mamdani) ? m <= som : (ty == Sugeno) ? (m == wtaver || m == wtsum) : m == wtaver), "defuzzification methods of each type");
}
// tags out of range touch nothing
//@ harness tags prop=C19 mode=real stubset=real unroll=8 prune
VC_HARNESS(tags){
    Rule r[1] = { anyRule(1, 1, 1) }; Sys<1> s(Sugeno, r, 1); const tag t = static_cast<tag>(vc_u8("t")), m = static_cast<tag>(vc_u8("m")); const float v = num("v"); const real_t p[2] = { num("p"), num("q") }; float y = 77.0f;
    const bool ti = t >= 0 && t < static_cast<tag>(NI), to = t == 0, tm = m >= 0 && m < static_cast<tag>(NM);
    vc_assert(s.f.setInput(t, v) == ti, "setInput"); vc_assert(s.f.setupInput(t, v, v + 1.0f) == ti, "setupInput"); vc_assert(s.f.getOutput(t, y) == to, "getOutput"); vc_assert(to || y == 77.0f, "unknown output leaves the value"); vc_assert(s.f.setupOutput(t, v, v + 1.0f) == to, "setupOutput");
    vc_assert(s.f.setupInputMF(t, m, linsmf, p) == (ti && tm), "setupInputMF"); vc_assert(s.f.setupOutputMF(t, m, constantmf, p) == (to && tm), "setupOutputMF"); (void) s.f[t]; s.f << t << v; if (ti) { vc_assert(s.f.fuzzify(), "fuzzify"); }
}
//@ harness fresh prop=C19 mode=real stubset=real
VC_HARNESS(fresh){ instance f; const tag t = static_cast<tag>(vc_u8("t")); float y = 1.0f; vc_assert(!f.setupInput(t, 0.0f, 1.0f) && !f.setupOutput(t, 0.0f, 1.0f) && !f.setInput(t, 0.0f) && !f.getOutput(t, y) && !f.setupInputMF(t, 0, trimf, &y) && !f.setupOutputMF(t, 0, trimf, &y) && !f.fuzzify() && !f.inference() && !f.deFuzzify(), "before setup everything is refused"); }
