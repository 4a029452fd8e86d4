// C18: membership functions and rule consequents follow their defining shape. Float arithmetic as real arithmetic.
// Everything is observed through the public interface: the strength of a one-premise rule is the membership of the input,
// the output of a one-rule Sugeno or Tsukamoto system is the value of its consequent.
#include "vc.h"
#include "real_stubs.h"
#include <include/fis.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
using namespace qlibs::fis;
#ifdef QVC
extern "C" {
__attribute__((used)) float ST_log(float x){ return vc_uff1("log", x); }
__attribute__((used)) float ST_pow(float b, float e){ const float r = vc_uff2("pow", b, e); vc_assume(!(b >= 0.0f) || r >= 0.0f); vc_assume(!(b == 0.0f && e > 0.0f) || r == 0.0f); vc_assume(!(b == 1.0f) || r == 1.0f); return r; }
}
static float Exp(float x){ return ST_exp(x); }
static float Log(float x){ return ST_log(x); }
static float Pow(float b, float e){ return ST_pow(b, e); }
static float Cos(float x){ return ST_cos(x); }
#else
#include <cmath>
static float Exp(float x){ return std::exp(x); }
static float Log(float x){ return std::log(x); }
static float Pow(float b, float e){ return std::pow(b, e); }
static float Cos(float x){ return std::cos(x); }
#endif
static const float L = 10.0f;
static float num(const char* n){ return vc_f32in(n, -L, L); }
static float gap(const char* n){ return vc_f32in(n, 0.25f, L); }
static const rules oneRule[] = { FIS_RULES_BEGIN IF 0 IS 0 THEN 0 IS 0 END FIS_RULES_END };
static const rules oneNot[] = { FIS_RULES_BEGIN IF 0 IS_NOT 0 THEN 0 IS 0 END FIS_RULES_END };
static float H = 1.0f;
// strength of the rule IF x IS (shape, p) ...
static float mu(shapeMF s, const real_t* p, float x, float h = 1.0f, bool neg = false, float lo = -40.0f, float hi = 40.0f){
    input in[1]; output out[1]; mf mi[1], mo[1]; real_t w[1] = { 0.5f }; static const real_t one[1] = { 1.0f };
    instance f; vc_assert(f.setup(Sugeno, in, out, mi, mo, neg ? oneNot : oneRule, w), "setup"); vc_assert(f.setupInput(0, lo, hi) && f.setupOutput(0, -100.0f, 100.0f), "range");
    vc_assert(f.setupInputMF(0, 0, s, p, h) && f.setupOutputMF(0, 0, constantmf, one), "sets"); vc_assert(f.setInput(0, x) && f.fuzzify(), "fuzzify"); vc_assert(f.inference(), "inference"); return w[0];
}
static void isval(float v, float e, const char* what, double sc = 1.0){ vc_close(v, e, sc, what); vc_assert(v >= 0.0f && v <= 1.0f, "membership lies in [0,1]"); }
#define STB stubset=real
//@ harness tri prop=C18 mode=real stubset=real stub=qlibs::ffmath::exp=>ST_exp
VC_HARNESS(tri){
    const float a = num("a"), b = a + gap("ab"), c = b + gap("bc"), x = num("x"); const real_t p[3] = { a, b, c };
    isval(mu(trimf, p, x), (x <= a || x >= c) ? 0.0f : (x <= b) ? (x - a)/(b - a) : (c - x)/(c - b), "triangle");
}
//@ harness trap prop=C18 mode=real stubset=real
VC_HARNESS(trap){
    const float a = num("a"), b = a + gap("ab"), c = b + vc_f32in("bc", 0.0f, L), d = c + gap("cd"), x = num("x"); const real_t p[4] = { a, b, c, d };
    isval(mu(trapmf, p, x), (x <= a || x >= d) ? 0.0f : (x < b) ? (x - a)/(b - a) : (x <= c) ? 1.0f : (d - x)/(d - c), "trapezoid");
}
// vertical edges, in floating point: nothing is lost to 0/0
//@ harness edges prop=C18 mode=fp
VC_HARNESS(edges){
    const float a = num("a"), c = num("c"), x = num("x"); vc_assume(a < c);
    const real_t box[4] = { a, a, c, c }; vc_assert(mu(trapmf, box, x) == ((x >= a && x <= c) ? 1.0f : 0.0f), "trapezoid with two vertical edges");
}
//@ harness edgeR prop=C18 mode=fp
VC_HARNESS(edgeR){
    const float a = static_cast<float>(vc_u8("a")), c = a + 1.0f + static_cast<float>(vc_u8("c")); const real_t rt[3] = { a, c, c }, lt[3] = { a, a, c }; const bool r = vc_bool("right");
    const real_t rp[4] = { a, c, c, c }, lp[4] = { a, a, a, c };
    vc_assert(mu(trimf, r ? rt : lt, r ? c : a, 1.0f, false, 0.0f, 1000.0f) == 1.0f, "triangle with a vertical edge"); vc_assert(mu(trapmf, r ? rp : lp, r ? c : a, 1.0f, false, 0.0f, 1000.0f) == 1.0f, "trapezoid with a vertical edge");
}
//@ harness gbell prop=C18 mode=real stubset=real stub=qlibs::ffmath::pow=>ST_pow
VC_HARNESS(gbell){
    const float a = gap("a"), b = gap("b"), c = num("c"), x = num("x"); const real_t p[3] = { a, b, c }; const float z = (x - c)/a;
    const float v = mu(gbellmf, p, x); isval(v, 1.0f/(1.0f + Pow((z < 0.0f) ? -z : z, 2.0f*b)), "bell"); vc_assert(!(x == c) || v == 1.0f, "centre"); vc_assert(!(x == c + a) || VC_NATIVE || v == 0.5f, "half width");
}
static float gau(float x, float s, float c){ const float t = (x - c)/s; return Exp(-0.5f*t*t); }
//@ harness gauss prop=C18 mode=real stubset=real stub=qlibs::ffmath::exp=>ST_exp
VC_HARNESS(gauss){
    const float s = gap("s"), c = num("c"), x = num("x"); const real_t p[2] = { s, c }; const float v = mu(gaussmf, p, x); isval(v, gau(x, s, c), "gaussian"); vc_assert(!(x == c) || v == 1.0f, "centre");
}
//@ harness gauss2 prop=C18 mode=real stubset=real stub=qlibs::ffmath::exp=>ST_exp
VC_HARNESS(gauss2){
    const float s1 = gap("s1"), c1 = num("c1"), s2 = gap("s2"), c2 = c1 + vc_f32in("gap", 0.0f, L), x = num("x"); const real_t p[4] = { s1, c1, s2, c2 };
    isval(mu(gauss2mf, p, x), (x < c1) ? gau(x, s1, c1) : (x <= c2) ? 1.0f : gau(x, s2, c2), "two gaussian flanks around a flat top");
}
static float sig(float x, float a, float c){ return 1.0f/(1.0f + Exp(-a*(x - c))); }
//@ harness sigm prop=C18 mode=real stubset=real stub=qlibs::ffmath::exp=>ST_exp
VC_HARNESS(sigm){
    const float a = vc_f32in("a", -3.0f, 3.0f), c = num("c"), x = num("x"), a2 = vc_f32in("a2", -3.0f, 3.0f), c2 = num("c2"); const real_t p[4] = { a, c, a2, c2 };
    isval(mu(sigmf, p, x), sig(x, a, c), "sigmoid"); const float d = sig(x, a, c) - sig(x, a2, c2); isval(mu(dsigmf, p, x), (d < 0.0f) ? -d : d, "difference of sigmoids"); isval(mu(psigmf, p, x), sig(x, a, c)*sig(x, a2, c2), "product of sigmoids");
}
static float sS(float x, float a, float b){ if (x <= a) return 0.0f; if (x >= b) return 1.0f; const float m = (a + b)/2.0f; if (x <= m) { const float t = (x - a)/(b - a); return 2.0f*t*t; } const float t = (x - b)/(b - a); return 1.0f - 2.0f*t*t; }
//@ harness sz prop=C18 mode=real stubset=real
VC_HARNESS(sz){
    const float a = num("a"), b = a + gap("ab"), x = num("x"); const real_t p[2] = { a, b };
    isval(mu(smf, p, x), sS(x, a, b), "s-shape"); isval(mu(zmf, p, x), 1.0f - sS(x, a, b), "z-shape");
}
//@ harness pi prop=C18 mode=real stubset=real
VC_HARNESS(pi){
    const float a = num("a"), b = a + gap("ab"), c = num("c"), d = c + gap("cd"), x = num("x"); const real_t p[4] = { a, b, c, d };
    isval(mu(pimf, p, x), sS(x, a, b)*(1.0f - sS(x, c, d)), "pi-shape");
}
//@ harness lin prop=C18 mode=real stubset=real
VC_HARNESS(lin){
    const float a = num("a"), b = a + gap("ab"), x = num("x"); const real_t p[2] = { a, b }, q[2] = { a, a }; const float r = (x <= a) ? 0.0f : (x >= b) ? 1.0f : (x - a)/(b - a);
    isval(mu(linsmf, p, x), r, "linear s-shape"); isval(mu(linzmf, p, x), 1.0f - r, "linear z-shape");
    vc_assert(mu(linsmf, q, x) == ((x < a) ? 0.0f : 1.0f), "step up"); vc_assert(mu(linzmf, q, x) == ((x < a) ? 1.0f : 0.0f), "step down");
    vc_assert(mu(rectmf, p, x) == ((x >= a && x <= b) ? 1.0f : 0.0f), "rectangle");
    vc_assert(!(x == a) || mu(singletonmf, p, x) == 1.0f, "singleton"); vc_assert(!(x - a > 0.001f || a - x > 0.001f) || mu(singletonmf, p, x) == 0.0f, "singleton elsewhere");
}
//@ harness conc prop=C18 mode=real stubset=real
VC_HARNESS(conc){
    const float i = num("i"), e = num("e"), x = num("x"); vc_assume(i - e > 0.25f || e - i > 0.25f); const real_t p[2] = { i, e };
    isval(mu(concavemf, p, x), (i < e) ? ((x < e) ? (e - i)/(2.0f*e - i - x) : 1.0f) : ((x > e) ? (i - e)/(i + x - 2.0f*e) : 1.0f), "concave");
}
//@ harness spike prop=C18 mode=real stubset=real stub=qlibs::ffmath::exp=>ST_exp,qlibs::ffmath::cos=>ST_cos
VC_HARNESS(spike){
    const float w = gap("w"), c = num("c"), x = num("x"); const real_t p[2] = { w, c }, q[2] = { c, w }; const float t = 10.0f*(x - c)/w, v = mu(spikemf, p, x); isval(v, Exp((t < 0.0f) ? t : -t), "spike"); vc_assert(!(x == c) || v == 1.0f, "tip");
    const float u = mu(cosmf, q, x); isval(u, (x < c - w/2.0f || x > c + w/2.0f) ? 0.0f : 0.5f*(1.0f + Cos(2.0f/w*3.14159265358979323846f*(x - c))), "cosine", 10.0); vc_assert(!(x == c) || VC_NATIVE || u == 1.0f, "centre");
}
// height, negation, range of the input
//@ harness height prop=C18 mode=real stubset=real
VC_HARNESS(height){
    const float v = vc_f32in("v", 0.0f, 1.0f), h = vc_f32in("h", -1.0f, 2.0f), hb = (h < 0.0f) ? 0.0f : (h > 1.0f) ? 1.0f : h; const real_t p[1] = { v };
    isval(mu(constantmf, p, 0.0f, h), hb*v, "height scales the set"); isval(mu(constantmf, p, 0.0f, h, true), 1.0f - hb*v, "negated premise");
    const float x = num("x"), lo = num("lo"), hi = lo + gap("hi"); const real_t q[2] = { -20.0f, 20.0f }; isval(mu(linsmf, q, x, 1.0f, false, lo, hi), (((x < lo) ? lo : (x > hi) ? hi : x) + 20.0f)/40.0f, "inputs are limited to their range");
}
static float user(const ioBase* const in, const real_t* p, const size_t n){ (void) in; (void) n; return p[1]; }
//@ harness custom prop=C18 mode=real stubset=real
VC_HARNESS(custom){
    input in[1]; output out[1]; mf mi[1], mo[1]; real_t w[1] = { 0.5f }; const real_t p[2] = { 0.0f, vc_f32in("v", -1.0f, 2.0f) }, z[2] = { 0.0f, num("z") };
    instance f; (void) f.setup(Sugeno, in, out, mi, mo, oneRule, w); (void) f.setupOutput(0, -100.0f, 100.0f); vc_assert(f.setupInputMF(0, 0, user, p) && f.setupOutputMF(0, 0, user, z, 0.25f), "custom sets"); vc_assert(f.fuzzify() && f.inference() && f.deFuzzify(), "run");
    vc_assert(w[0] == ((p[1] < 0.0f) ? 0.0f : (p[1] > 1.0f) ? 1.0f : p[1]), "custom membership, limited to [0,1]"); float y = 0.0f; vc_assert(f.getOutput(0, y), "output"); vc_assert(!(w[0] > 0.0f) || VC_NATIVE || y == z[1], "custom consequent, no height");
}
// value of the consequent of a one-rule system of the given type whose rule fires with strength s
template<size_t N> static float cons(type t, shapeMF c, const real_t* p, const float (&x)[N], float s, float lo, float hi){
    input in[N]; output out[1]; mf mi[1], mo[1]; real_t w[1] = { 0.5f }; const real_t q[1] = { s }; instance f; (void) f.setup(t, in, out, mi, mo, oneRule, w); (void) f.setupOutput(0, lo, hi);
    for (size_t i = 0; i < N; ++i) { (void) f.setupInput(static_cast<tag>(i), -40.0f, 40.0f); (void) f.setInput(static_cast<tag>(i), x[i]); }
    (void) f.setupInputMF(0, 0, constantmf, q); (void) f.setupOutputMF(0, 0, c, p, 0.25f); vc_assert(f.fuzzify() && f.inference() && f.deFuzzify(), "run"); float y = 0.0f; vc_assert(f.getOutput(0, y), "output"); vc_assert(y >= lo && y <= hi, "in range"); return y;
}
//@ harness sugeno prop=C18 mode=real stubset=real unroll=4
VC_HARNESS(sugeno){
    const float x[3] = { num("x0"), num("x1"), num("x2") }; const real_t p[4] = { num("p0"), num("p1"), num("p2"), num("p3") }; const float s = vc_f32in("s", 0.125f, 1.0f);
    vc_close(cons(Sugeno, constantmf, p, x, s, -1000.0f, 1000.0f), p[0], 100.0, "constant consequent"); vc_close(cons(Sugeno, linearmf, p, x, s, -1000.0f, 1000.0f), x[0]*p[0] + x[1]*p[1] + x[2]*p[2] + p[3], 400.0, "linear consequent");
    const float x1[1] = { x[1] }; vc_close(cons(Sugeno, linearmf, p, x1, s, -1000.0f, 1000.0f), x1[0]*p[0] + p[1], 400.0, "linear consequent of one input");
}
static float str_(void){ return vc_f32in("s", 0.0625f, 1.0f); }
//@ harness tsuk prop=C18 mode=real stubset=real stub=qlibs::ffmath::log=>ST_log
VC_HARNESS(tsuk){
    const float x[1] = { num("x") }, s = str_(), a = num("a"), b = a + gap("ab"); const real_t p[2] = { a, b };
    vc_close(cons(Tsukamoto, tlinsmf, p, x, s, -1000.0f, 1000.0f), a + s*(b - a), 30.0, "inverse of the linear s-shape"); vc_close(cons(Tsukamoto, trampmf, p, x, s, -1000.0f, 1000.0f), a + s*(b - a), 30.0, "inverse of the ramp");
    vc_close(cons(Tsukamoto, tlinzmf, p, x, s, -1000.0f, 1000.0f), b - s*(b - a), 30.0, "inverse of the linear z-shape");
    const float y = cons(Tsukamoto, tconcavemf, p, x, s, -1000.0f, 1000.0f); vc_close((b - a), s*(2.0f*b - a - y), 400.0, "inverse of the concave set"); const real_t q[2] = { b, a }; const float z = cons(Tsukamoto, tconcavemf, q, x, s, -1000.0f, 1000.0f); vc_close((b - a), s*(b + z - 2.0f*a), 400.0, "inverse of the mirrored concave set");
}
//@ harness tsig prop=C18 mode=real stubset=real stub=qlibs::ffmath::log=>ST_log
VC_HARNESS(tsig){
    const float x[1] = { num("x") }, s = vc_f32in("s", 0.0625f, 1.0f), k = vc_bool("neg") ? -gap("k") : gap("k"), c = num("c"); vc_assume(s == 1.0f || s < 0.99f); const real_t p[2] = { k, c };
    const float y = cons(Tsukamoto, tsigmf, p, x, s, -1000.0f, 1000.0f); if (s == 1.0f) vc_close(y, (k > 0.0f) ? 1000.0f : -1000.0f, 0.0, "full strength reaches the end of the range"); else { const float e = c - Log(1.0f/s - 1.0f)/k; vc_close(y, (e < -1000.0f) ? -1000.0f : (e > 1000.0f) ? 1000.0f : e, 50.0, "inverse of the sigmoid"); }
}
static void inv(shapeMF c, bool low, bool falling){
    const float x[1] = { num("x") }, s = str_(), a = num("a"), g = gap("ab"), b = a + g; const real_t p[2] = { a, b }; vc_assume(low ? s <= 0.5f : s >= 0.5f);
    const float y = cons(Tsukamoto, c, p, x, s, -1000.0f, 1000.0f), u = falling ? b - y : y - a; // distance from the end where the membership is 0
    vc_assert(VC_NATIVE || (low ? (u >= 0.0f && u <= g/2.0f) : (u >= g/2.0f && u <= g)), "on the right flank"); const float v = low ? u : g - u; vc_close(2.0f*v*v, (low ? s : 1.0f - s)*g*g, 200.0, falling ? "inverse of the z-shape" : "inverse of the s-shape");
}
//@ harness tsLow prop=C18 mode=real stubset=real
VC_HARNESS(tsLow){ inv(tsmf, true, false); }
//@ harness tsHigh prop=C18 mode=real stubset=real
VC_HARNESS(tsHigh){ inv(tsmf, false, false); }
//@ harness tzLow prop=C18 mode=real stubset=real
VC_HARNESS(tzLow){ inv(tzmf, true, true); }
//@ harness tzHigh prop=C18 mode=real stubset=real
VC_HARNESS(tzHigh){ inv(tzmf, false, true); }
