// C10: one-dimensional interpolation over tables of any size.
#include "vc.h"
#include "real_stubs.h"
#include <include/interp1.hpp>
#include <include/ffmath.hpp>
using namespace qlibs;
#include <cmath>
#ifdef QVC
static const uint64_t MAXN = 1ull << 30;
#else
static const uint64_t MAXN = 7u;
#endif
static float* gx; static float* gy; static size_t gn, gk; static float gX;
// strictly increasing abscissae, as seen from interval k (consequences of the table being sorted)
static bool sorted(uint64_t i){
    if (i >= gn) return true;
    if (i + 1u < gn && !(gx[i] < gx[i + 1u])) return false;
    if (i < gk && !(gx[i] < gx[gk])) return false;
    if (i > gk + 1u && !(gx[i] > gx[gk + 1u])) return false;
    return true;
}
static bool sorted3(uint64_t i){ return !(i < gn && i <= gk) || gx[i] < gx[gk + 1u]; }
static bool sorted2(uint64_t i){ return !(i < gn && i > gk) || gx[i] > gx[gk]; }
#ifndef QVC
static void sortTable(){ for (size_t i = 1; i < gn; ++i) if (!(gx[i] > gx[i - 1u] + 0.01f)) gx[i] = gx[i - 1u] + 0.25f; }
#else
static void sortTable(){}
#endif
// an arbitrary table of n >= lo points, an arbitrary interval k
#define TABLE(lo) \
    gn = vc_size("n", lo, MAXN); gk = vc_index("k", gn - 1u); gx = vc_farr("tx", gn, -100.0f, 100.0f); gy = vc_farr("ty", gn, -100.0f, 100.0f); sortTable(); \
    vc_assume_forall(sorted, "the abscissae are strictly increasing"); vc_assume_forall(sorted2, "the abscissae are strictly increasing"); \
    vc_assume(gx[gk] < gx[gk + 1u]); vc_assume(gx[gk + 1u] - gx[gk] > 1e-3f); interp1 t(gx, gy, gn)
static float pickX(){ float x = vc_f32in("x", -100.0f, 100.0f);
#ifndef QVC
    if (!(x >= gx[gk] && x < gx[gk + 1u])) { const float u = vc_f32in("u", 0.0f, 1.0f); x = gx[gk] + u*(gx[gk + 1u] - gx[gk]); if (vc_u8("edge") % 4u == 0u) x = gx[gk]; }
#endif
    vc_assume(x >= gx[gk] && x < gx[gk + 1u]); return x; }

#ifdef QVC
extern "C" __attribute__((used)) bool INV_le(uint64_t it){ return it <= gk; }                    // the search has not passed interval k
extern "C" __attribute__((used)) bool INV_lt(uint64_t it){ return it < gk; }
extern "C" __attribute__((used)) bool INV_ni(uint64_t it, uint64_t ni){ return ni == it && it < gn; }
extern "C" __attribute__((used)) bool INV_n0(uint64_t it, uint64_t ni){ return ni < gn; }
static float adist(float a, float b){ return (a < b) ? b - a : a - b; }
static bool upper(){ return adist(gX, gx[gk + 1u]) <= adist(gX, gx[gk]); }
extern "C" __attribute__((used)) bool INV_nn(uint64_t it, uint64_t ni){ return it < gn && ni == ((it <= gk) ? it : (upper() ? gk + 1u : gk)); }
extern "C" __attribute__((used)) bool INV_nd(uint64_t it, float d){ return it < gn && d == ((it <= gk) ? adist(gX, gx[it]) : (upper() ? adist(gX, gx[gk + 1u]) : adist(gX, gx[gk]))); }
#endif
//@ harness next prop=C10 cut=*
VC_HARNESS(next){ TABLE(2u); vc_assert(t.setMethod(INTERP1_NEXT), "method accepted"); const float x = pickX(); vc_assert(vc_bits(t.get(x)) == vc_bits(gy[gk + 1u]), "next: the value at the following node"); }
//@ harness previous prop=C10 cut=* inv=INV_le,INV_ni
VC_HARNESS(previous){ TABLE(2u); vc_assert(t.setMethod(INTERP1_PREVIOUS), "method accepted"); const float x = pickX(); vc_assert(vc_bits(t.get(x)) == vc_bits(gy[gk]), "previous: the value at the preceding node"); }
//@ harness beyond prop=C10 cut=*
VC_HARNESS(beyond){   // outside the table
    TABLE(2u); const float lo = vc_f32in("lo", -200.0f, 200.0f), hi = vc_f32in("hi", -200.0f, 200.0f); vc_assume(gk == 0u && lo < gx[0]); vc_assume(hi >= gx[gn - 1u]);
    t.setMethod(INTERP1_NEXT); vc_assert(vc_bits(t.get(lo)) == vc_bits(gy[0]) && vc_bits(t.get(hi)) == vc_bits(gy[gn - 1u]), "next outside the table is the end value");
    t.setMethod(INTERP1_PREVIOUS); vc_assert(vc_bits(t.get(lo)) == vc_bits(gy[0]), "previous before the table is the first value");
}
//@ harness beyondHi prop=C10 cut=* inv=INV_ni
VC_HARNESS(beyondHi){ TABLE(2u); const float hi = vc_f32in("hi", -200.0f, 200.0f); vc_assume(gk + 2u == gn); vc_assume(hi >= gx[gk + 1u]); t.setMethod(INTERP1_PREVIOUS); vc_assert(vc_bits(t.get(hi)) == vc_bits(gy[gn - 1u]), "previous after the table is the last value"); }
static double lin(size_t k, double x){ return gy[k] + (static_cast<double>(gy[k + 1u]) - gy[k])*(x - gx[k])/(static_cast<double>(gx[k + 1u]) - gx[k]); }
//@ harness linear prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(linear){ TABLE(2u); const float x = pickX(); vc_close(t.get(x), lin(gk, x), 100.0, "linear (the default method): the straight line through the neighbouring nodes"); }
//@ harness linearM prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(linearM){ TABLE(2u); const float x = pickX(); vc_assert(t.setMethod(INTERP1_NEXT) && t.setMethod(INTERP1_LINEAR), "method accepted"); vc_close(t.get(x), lin(gk, x), 100.0, "linear: the straight line through the neighbouring nodes"); }
//@ harness linearEnd prop=C10 mode=real cut=* stubset=real
VC_HARNESS(linearEnd){
    TABLE(2u); const float lo = vc_f32in("lo", -200.0f, 200.0f), hi = vc_f32in("hi", -200.0f, 200.0f); vc_assume(lo < gx[0] && gk == 0u); vc_assume(hi > gx[gn - 1u]);
    vc_close(t.get(lo), lin(0u, lo), 100.0, "linear before the table extends the first segment");
}
//@ harness linearEnd2 prop=C10 mode=real cut=* stubset=real
VC_HARNESS(linearEnd2){ TABLE(2u); const float hi = vc_f32in("hi", -200.0f, 200.0f); vc_assume(gk + 2u == gn && hi > gx[gk + 1u]); vc_assume_forall(sorted3, "the abscissae are strictly increasing"); vc_close(t.get(hi), lin(gk, hi), 100.0, "linear after the table extends the last segment"); }
//@ harness nearest prop=C10 mode=real cut=* stubset=real inv=INV_nn,INV_nd
VC_HARNESS(nearest){
    TABLE(2u); vc_assert(t.setMethod(INTERP1_NEAREST), "method accepted"); const float x = pickX(); gX = x;
    const size_t e = (gx[gk + 1u] - x <= x - gx[gk]) ? gk + 1u : gk;
    vc_close(t.get(x), gy[e], 1.0, "nearest: the value at the closer node, the upper one on a tie");
}
#ifdef QVC
extern "C" __attribute__((used)) bool INV_nh(uint64_t it, uint64_t ni){ return it < gn && ni == it; }
extern "C" __attribute__((used)) bool INV_dh(uint64_t it, float d){ return it < gn && d == adist(gX, gx[it]); }
extern "C" __attribute__((used)) bool INV_nl(uint64_t, uint64_t ni){ return ni == 0u; }
extern "C" __attribute__((used)) bool INV_dl(uint64_t, float d){ return d == adist(gX, gx[0]); }
static bool sortedAll(uint64_t i){ return !(i > 0u && i < gn) || (gx[i] > gx[0]); }
static bool sortedTop(uint64_t i){ return !(i + 1u < gn) || (gx[i] < gx[gn - 1u]); }
#else
static bool sortedAll(uint64_t){ return true; }
static bool sortedTop(uint64_t){ return true; }
#endif
//@ harness nearestHi prop=C10 mode=real cut=* stubset=real inv=INV_nh,INV_dh
VC_HARNESS(nearestHi){
    TABLE(2u); vc_assert(t.setMethod(INTERP1_NEAREST), "method accepted"); vc_assume(gk + 2u == gn); gX = vc_f32in("hi", -200.0f, 200.0f); if (VC_NATIVE && vc_bool("edge")) gX = gx[gn - 1u]; vc_assume(gX >= gx[gk + 1u]); vc_assume_forall(sortedTop, "the abscissae are strictly increasing");
    vc_close(t.get(gX), gy[gn - 1u], 1.0, "nearest: at or after the last node, the last value");
}
//@ harness nearestLo prop=C10 mode=real cut=* stubset=real inv=INV_nl,INV_dl
VC_HARNESS(nearestLo){
    TABLE(2u); vc_assert(t.setMethod(INTERP1_NEAREST), "method accepted"); gX = vc_f32in("lo", -200.0f, 200.0f); if (VC_NATIVE && vc_bool("edge")) gX = gx[0]; vc_assume(gX <= gx[0]); vc_assume_forall(sortedAll, "the abscissae are strictly increasing");
    vc_close(t.get(gX), gy[0], 1.0, "nearest: at or before the first node, the first value");
}
//@ harness linearLast prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(linearLast){ TABLE(2u); vc_assume(gk + 2u == gn); vc_assume_forall(sorted3, "the abscissae are strictly increasing"); vc_close(t.get(gx[gk + 1u]), gy[gk + 1u], 100.0, "linear passes through the last node"); }
//@ harness sineLast prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(sineLast){ TABLE(2u); t.setMethod(INTERP1_SINE); vc_assume(gk + 2u == gn); vc_assume_forall(sorted3, "the abscissae are strictly increasing"); const float y = t.get(gx[gk + 1u]) - gy[gk + 1u]; vc_assert(y < 0.4f && y > -0.4f, "sine passes through the last node"); }
// any x: no read outside the table
#define SAFE(m) TABLE(4u); t.setMethod(m); vc_assume_forall(sorted3, "the abscissae are strictly increasing"); \
    const float x = vc_f32in("x", -200.0f, 200.0f); vc_assume((x < gx[0] && gk == 0u) || (x >= gx[gk] && x < gx[gk + 1u]) || (x >= gx[gk + 1u] && gk + 2u == gn)); (void) t.get(x)
//@ harness safeNext prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safeNext){ SAFE(INTERP1_NEXT); }
//@ harness safePrevious prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safePrevious){ SAFE(INTERP1_PREVIOUS); }
//@ harness safeNearest prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safeNearest){ SAFE(INTERP1_NEAREST); }
//@ harness safeLinear prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safeLinear){ SAFE(INTERP1_LINEAR); }
//@ harness safeSine prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safeSine){ SAFE(INTERP1_SINE); }
//@ harness safeCubic prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safeCubic){ SAFE(INTERP1_CUBIC); }
//@ harness safeSpline prop=C10 mode=real cut=* stubset=real inv=INV_n0,INV_le
VC_HARNESS(safeSpline){ SAFE(INTERP1_SPLINE); }

// sine: y0 + (1 - cos(pi t))/2 (y1 - y0)
#ifdef QVC
static float cosPi(float x0, float x1, float x){ return ST_cos(ffmath::FFP_PI*(x - x0)/(x1 - x0)); }
#else
static double cosPi(double x0, double x1, double x){ return std::cos(3.14159265358979*(x - x0)/(x1 - x0)); }
#endif
//@ harness sine prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(sine){
    TABLE(2u); vc_assert(t.setMethod(INTERP1_SINE), "method accepted"); const float x = pickX(); const float y = t.get(x); const float y0 = gy[gk], y1 = gy[gk + 1u];
    vc_close(y, y0 + (0.5f - 0.5f*cosPi(gx[gk], gx[gk + 1u], x))*(y1 - y0), 1000.0, "sine: half a cosine between the neighbouring nodes");
    vc_assert(x != gx[gk] || (y - y0 < 0.4f && y0 - y < 0.4f), "sine passes through the nodes");
}
//@ harness sineEnd prop=C10 mode=real cut=* stubset=real
VC_HARNESS(sineEnd){   // outside the table: stays between the values of the end interval
    TABLE(2u); const float x = vc_f32in("out", -200.0f, 200.0f); t.setMethod(INTERP1_SINE);
    vc_assume((x < gx[0] && gk == 0u) || (x > gx[gn - 1u] && gk + 2u == gn));
    const float y = t.get(x), lo = (gy[gk] < gy[gk + 1u]) ? gy[gk] : gy[gk + 1u], hi = (gy[gk] < gy[gk + 1u]) ? gy[gk + 1u] : gy[gk];
    vc_assert(y >= lo - 0.4f && y <= hi + 0.4f, "sine outside the table stays between the values of the end interval");
}
// node exactness of the cubic methods (tables of at least 4 points)
#define NODE(m, K) \
    TABLE(4u); vc_assert(t.setMethod(m), "method accepted"); size_t e = gk; if (K) { vc_assume(gk + 2u == gn); vc_assume_forall(sorted3, "the abscissae are strictly increasing"); e = gk + 1u; } \
    vc_close(t.get(gx[e]), gy[e], 100.0, #m " passes through the nodes")
//@ harness cubicNode prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(cubicNode){ NODE(INTERP1_CUBIC, gk == 0u ? false : (vc_assume(false), false)); }
//@ harness cubicMid prop=C10 mode=real cut=* inv=INV_lt,INV_le stubset=real
VC_HARNESS(cubicMid){ NODE(INTERP1_CUBIC, gk > 0u ? false : (vc_assume(false), false)); }
//@ harness cubicLast prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(cubicLast){ NODE(INTERP1_CUBIC, true); }
//@ harness splineNode prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(splineNode){ NODE(INTERP1_SPLINE, false); }
//@ harness splineLast prop=C10 mode=real cut=* inv=INV_le stubset=real
VC_HARNESS(splineLast){ NODE(INTERP1_SPLINE, true); }
// splines reproduce straight lines
template<int N> static void line(interp1Method m, int k, const char* what){
    gn = N; gk = static_cast<size_t>(k); float xs[N], ys[N]; const float gm = vc_f32in("m", -2.0f, 2.0f), gb = vc_f32in("b", -2.0f, 2.0f);
    for (int i = 0; i < N; ++i) xs[i] = vc_f32in("tx", -10.0f, 10.0f);
    gx = xs; gy = ys; sortTable(); for (int i = 0; i < N; ++i) ys[i] = gm*xs[i] + gb;
    for (int i = 1; i < N; ++i) vc_assume(xs[i] > xs[i - 1] + 0.001f);
    const float x = pickX(); vc_assume(x < gx[gk + 1u] - 0.001f); interp1 t(xs, ys); vc_assert(t.setMethod(m), "method accepted");
    vc_close(t.get(x), gm*x + gb, 20.0, what);
}
//@ harness splineLine0 prop=C10 mode=real stubset=real
VC_HARNESS(splineLine0){ line<5>(INTERP1_SPLINE, 0, "spline of collinear points is their line (first interval)"); }
//@ harness splineLine1 prop=C10 mode=real stubset=real
VC_HARNESS(splineLine1){ line<5>(INTERP1_SPLINE, 2, "spline of collinear points is their line (inner interval)"); }
//@ harness splineLine2 prop=C10 mode=real stubset=real
VC_HARNESS(splineLine2){ line<5>(INTERP1_SPLINE, 3, "spline of collinear points is their line (last interval)"); }
#ifdef QVC
extern "C" __attribute__((used)) float ST_anyL(const float*, const float*, size_t, size_t i){ return vc_uff1("left", static_cast<float>(i)); }
extern "C" __attribute__((used)) float ST_anyR(const float*, const float*, size_t, size_t i){ return vc_uff1("right", static_cast<float>(i)); }
#endif
//@ harness cSplineSafe prop=C10 mode=real stubset=real
VC_HARNESS(cSplineSafe){   // every read stays inside the table, for every x
    float xs[5], ys[5]; for (int i = 0; i < 5; ++i) { xs[i] = vc_f32in("tx", -2.0f, 2.0f); ys[i] = vc_f32in("ty", -10.0f, 10.0f); } gn = 5u; gx = xs; sortTable(); for (int i = 1; i < 5; ++i) vc_assume(xs[i] > xs[i - 1]);
    interp1 t(xs, ys); vc_assert(t.setMethod(INTERP1_CONSTRAINED_SPLINE), "method accepted"); (void) t.get(vc_f32in("x", -10.0f, 10.0f));
}
template<int N> static void cnode(int k){
    gn = N; float xs[N], ys[N]; for (int i = 0; i < N; ++i) { xs[i] = vc_f32in("tx", -2.0f, 2.0f); ys[i] = vc_f32in("ty", -10.0f, 10.0f); }
    gx = xs; gy = ys; sortTable(); for (int i = 1; i < N; ++i) vc_assume(xs[i] > xs[i - 1] + 0.125f && ys[i] != ys[i - 1]);
    interp1 t(xs, ys); vc_assert(t.setMethod(INTERP1_CONSTRAINED_SPLINE), "method accepted");
    vc_close(t.get(xs[k]), ys[k], 1000.0, "constrained spline passes through the nodes");
}
//@ harness cSpline0 prop=C10 mode=real stubset=real
VC_HARNESS(cSpline0){ cnode<5>(0); }
//@ harness cSpline1 prop=C10 mode=real stubset=real stub=qlibs::interp1::leftSecondDerivate=>ST_anyL,qlibs::interp1::rightSecondDerivate=>ST_anyR note="exact at the nodes for any end curvatures"
VC_HARNESS(cSpline1){ cnode<5>(1); }
//@ harness cSpline2 prop=C10 mode=real stubset=real stub=qlibs::interp1::leftSecondDerivate=>ST_anyL,qlibs::interp1::rightSecondDerivate=>ST_anyR note="exact at the nodes for any end curvatures"
VC_HARNESS(cSpline2){ cnode<5>(2); }
//@ harness cSpline3 prop=C10 mode=real stubset=real stub=qlibs::interp1::leftSecondDerivate=>ST_anyL,qlibs::interp1::rightSecondDerivate=>ST_anyR note="exact at the nodes for any end curvatures"
VC_HARNESS(cSpline3){ cnode<4>(2); }
//@ harness cSpline4 prop=C10 mode=real stubset=real
VC_HARNESS(cSpline4){ cnode<5>(4); }
// hermite (Lagrange form), small tables
template<int N> static void herm(){
    gn = N; float xs[N], ys[N]; for (int i = 0; i < N; ++i) { xs[i] = vc_f32in("tx", -10.0f, 10.0f); ys[i] = vc_f32in("ty", -10.0f, 10.0f); }
    gx = xs; gy = ys; sortTable(); for (int i = 1; i < N; ++i) vc_assume(xs[i] > xs[i - 1]);
    interp1 t(xs, ys); vc_assert(t.setMethod(INTERP1_HERMITE), "method accepted");
    for (int i = 0; i < N; ++i) vc_close(t.get(xs[i]), ys[i], 100.0, "hermite passes through the nodes");
}
//@ harness hermite2 prop=C10 mode=real stubset=real
VC_HARNESS(hermite2){ herm<2>(); }
//@ harness hermite3 prop=C10 mode=real stubset=real
VC_HARNESS(hermite3){ herm<3>(); }
//@ harness hermite4 prop=C10 mode=real stubset=real
VC_HARNESS(hermite4){ herm<4>(); }
//@ harness config prop=C10 mode=uf
VC_HARNESS(config){   // unusable tables give NaN; refused changes keep the previous table and method
    float xs[4], ys[4]; for (int i = 0; i < 4; ++i) { xs[i] = vc_f32("tx"); ys[i] = vc_f32("ty"); }
    const float x = vc_f32("x"); const uint8_t m = vc_u8("m"), how = vc_u8("how"); const size_t n = vc_size("n", 0u, 4u);
    interp1 bad(how == 0u ? nullptr : xs, how == 1u ? nullptr : ys, how < 2u ? 4u : n);
    const bool ok = bad.setMethod(static_cast<interp1Method>(m)); vc_assert(ok == (m < 9u), "exactly the nine methods are accepted");
    const bool four = (m == INTERP1_CUBIC || m == INTERP1_SPLINE || m == INTERP1_CONSTRAINED_SPLINE);
    if (how < 2u || n < (four ? 4u : 2u)) { const float r = bad.get(x); vc_assert(r != r, "a missing or too short table gives NaN"); }
}
//@ harness setData prop=C10 mode=real stubset=real
VC_HARNESS(setData){
    float xs[4] = { 0.0f, 1.0f, 2.0f, 3.0f }, ys[4], zs[4]; for (int i = 0; i < 4; ++i) { ys[i] = vc_f32in("ty", -100.0f, 100.0f); zs[i] = vc_f32in("tz", -100.0f, 100.0f); }
    interp1 t(xs, ys); t.setMethod(INTERP1_PREVIOUS);
    const uint8_t how = vc_u8("how"); const size_t n = vc_size("n", 0u, 4u); const size_t k = vc_index("k", 4u);
    const bool r = t.setData(how == 0u ? nullptr : xs, how == 1u ? nullptr : zs, n);
    vc_assert(r == (how > 1u && n >= 4u), "setData accepts exactly complete tables of at least four points");
    vc_assert(!t.setMethod(static_cast<interp1Method>(9u + vc_u8("bad") % 100u)), "an unknown method is refused");
    vc_assert(t.get(k) == (r ? zs[k] : ys[k]), "a refused change keeps the previous table and method");
}
VC_SEARCH(hermiteN){
    gn = vc_size("n", 2u, 6u); gx = vc_farr("tx", gn, -4.0f, 4.0f); gy = vc_farr("ty", gn, -10.0f, 10.0f); for (size_t i = 1; i < gn; ++i) if (!(gx[i] > gx[i - 1] + 0.5f)) gx[i] = gx[i - 1] + 0.5f;
    interp1 t(gx, gy, gn); vc_assert(t.setMethod(INTERP1_HERMITE), "method accepted"); const float x = gx[0] + vc_f32in("u", 0.0f, 1.0f)*(gx[gn - 1] - gx[0]);
    double e = 0.0, mag = 0.0; for (size_t i = 0; i < gn; ++i) { double q = gy[i]; for (size_t j = 0; j < gn; ++j) if (i != j) q *= (static_cast<double>(x) - gx[j])/(static_cast<double>(gx[i]) - gx[j]); e += q; mag += q < 0 ? -q : q; }
    vc_assume(x <= gx[gn - 1]); vc_close(t.get(x), e, mag, "hermite: the polynomial through all the nodes");
}
VC_SEARCH(cSplineN){
    gn = vc_size("n", 4u, 7u); gx = vc_farr("tx", gn, -2.0f, 2.0f); gy = vc_farr("ty", gn, -10.0f, 10.0f); for (size_t i = 1; i < gn; ++i) if (!(gx[i] > gx[i - 1] + 0.25f)) gx[i] = gx[i - 1] + 0.25f;
    gk = vc_index("k", gn - 1u); interp1 t(gx, gy, gn); vc_assert(t.setMethod(INTERP1_CONSTRAINED_SPLINE), "method accepted"); const float x = pickX(); const size_t n = gn - 1u;
    double d[8]; for (size_t i = 1; i < n; ++i) { const double a = (static_cast<double>(gy[i + 1]) - gy[i])/(gx[i + 1] - gx[i]), b = (static_cast<double>(gy[i]) - gy[i - 1])/(gx[i] - gx[i - 1]); d[i] = (a*b <= 0.0) ? 0.0 : 2.0/(1.0/a + 1.0/b); }
    d[0] = 1.5*(static_cast<double>(gy[1]) - gy[0])/(gx[1] - gx[0]) - 0.5*d[1]; d[n] = 1.5*(static_cast<double>(gy[n]) - gy[n - 1])/(gx[n] - gx[n - 1]) - 0.5*d[n - 1];
    const double h = static_cast<double>(gx[gk + 1]) - gx[gk], u = (x - static_cast<double>(gx[gk]))/h, u2 = u*u, u3 = u2*u;
    vc_close(t.get(x), (2*u3 - 3*u2 + 1)*gy[gk] + (u3 - 2*u2 + u)*h*d[gk] + (3*u2 - 2*u3)*gy[gk + 1] + (u3 - u2)*h*d[gk + 1], 1000.0, "constrained spline: cubic with the constrained slopes");
}
VC_SEARCH(splineN){
    TABLE(4u); vc_assert(t.setMethod(INTERP1_SPLINE), "method accepted"); const float x = pickX(); const size_t k = gk, n = gn - 1u;
    auto s = [](size_t i, size_t j){ return (static_cast<double>(gy[j]) - gy[i])/(static_cast<double>(gx[j]) - gx[i]); };
    const double m0 = k == 0u ? s(0u, 1u) : s(k - 1u, k + 1u), m1 = k + 1u == n ? s(k, k + 1u) : s(k, k + 2u), h = static_cast<double>(gx[k + 1]) - gx[k], u = (x - static_cast<double>(gx[k]))/h, u2 = u*u, u3 = u2*u;
    vc_assume(x < gx[k + 1] - 0.001f); vc_close(t.get(x), (2*u3 - 3*u2 + 1)*gy[k] + (u3 - 2*u2 + u)*h*m0 + (3*u2 - 2*u3)*gy[k + 1] + (u3 - u2)*h*m1, 500.0 + 10.0*h*((m0 < 0 ? -m0 : m0) + (m1 < 0 ? -m1 : m1)), "spline: cubic with central-difference slopes");
}
