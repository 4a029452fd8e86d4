// C22: scaling, interpolation and point-in-figure tests of ffmath. Float arithmetic as real arithmetic unless a harness says fp.
#include "vc.h"
#include "real_stubs.h"
#include <include/ffmath.hpp>
#include <float.h>
using namespace qlibs;
static bool fin(float x){ return x <= FLT_MAX && x >= -FLT_MAX; }
static float v(const char* n){ return vc_f32in(n, -100.0f, 100.0f); }
//@ harness scale prop=C22 mode=real stubset=real
VC_HARNESS(scale){
    const float a = v("a"), b = v("b"), c = v("c"), d = v("d"), x = v("x"); vc_assume(b - a > 0.5f || a - b > 0.5f); const float n = ffmath::normalize(x, a, b), y = ffmath::map(x, a, b, c, d);
    vc_close(n*(b - a), x - a, 400.0, "normalised position"); vc_close((y - c)*(b - a), (x - a)*(d - c), 40000.0, "straight line through both end points"); vc_close(ffmath::map(a, a, b, c, d), c, 200.0, "lower end"); vc_close(ffmath::map(b, a, b, c, d), d, 200.0, "upper end");
}
//@ harness lerpV prop=C22 mode=real stubset=real stub=qlibs::ffmath::isEqual=>ST_same
VC_HARNESS(lerpV){
    const float a = v("a"), b = v("b"), t = vc_f32in("t", -2.0f, 3.0f); const float y = ffmath::lerp(a, b, t); vc_close(y, a + t*(b - a), 1000.0, "on the straight line from a to b");
}
// guaranteed in floating point, for every finite a and b
//@ harness lerpE prop=C22 mode=fp
VC_HARNESS(lerpE){ const float a = vc_f32("a"), b = vc_f32("b"); vc_assume(fin(a) && fin(b)); vc_assert(ffmath::lerp(a, b, 0.0f) == a, "t = 0"); vc_assert(ffmath::lerp(a, b, 1.0f) == b, "t = 1"); }
//@ harness lerpS prop=C22 mode=fp
VC_HARNESS(lerpS){ const float a = vc_f32("a"), t = vc_f32("t"); vc_assume(fin(a) && fin(t) && a != 0.0f); vc_assert(ffmath::lerp(a, a, t) == a, "a = b"); }
VC_SEARCH(lerpIn){ const float a = vc_f32("a"), b = vc_f32("b"), t = vc_f32in("t", 0.0f, 1.0f); vc_assume(fin(a) && fin(b)); const float y = ffmath::lerp(a, b, t); vc_assert(y >= ((a < b) ? a : b) && y <= ((a < b) ? b : a), "inside for t in [0,1]"); }
//@ harness midV prop=C22 mode=real stubset=real stub=absolute=>ST_absf
VC_HARNESS(midV){ const float a = vc_f32in("a", -3.0e38f, 3.0e38f), b = vc_f32in("b", -3.0e38f, 3.0e38f); vc_assume((a == 0.0f || a > 1.0e-30f || a < -1.0e-30f) && (b == 0.0f || b > 1.0e-30f || b < -1.0e-30f)); vc_close(ffmath::midpoint(a, b), a*0.5f + b*0.5f, 0.0, "half the sum"); }
//@ harness circle prop=C22 mode=real stubset=real
VC_HARNESS(circle){
    const float x = v("x"), y = v("y"), cx = v("cx"), cy = v("cy"), r = vc_f32in("r", 0.0f, 100.0f); const bool in = ffmath::inCircle(x, y, cx, cy, r);
#if VC_NATIVE
    const double d = (double(x) - cx)*(double(x) - cx) + (double(y) - cy)*(double(y) - cy), q = double(r)*r; vc_assume(d < q*0.999 - 1e-3 || d > q*1.001 + 1e-3 || d == q);
#else
    const float d = (x - cx)*(x - cx) + (y - cy)*(y - cy), q = r*r;
#endif
    vc_assert(in == (d <= q), "inside or on the circle");
}
// the even-odd rule, free of divisions: an edge is crossed below the point (edges seen from the point towards growing y)
static bool above(float x, float y, float ax, float ay, float bx, float by){
    // y < ay + (by - ay)(x - ax)/(bx - ax), cleared of the denominator
#if VC_NATIVE
    const double l = (double(y) - ay)*(double(bx) - ax), r = (double(by) - ay)*(double(x) - ax); vc_assume(l - r > 1e-2 || r - l > 1e-2);
#else
    const float l = (y - ay)*(bx - ax), r = (by - ay)*(x - ax);
#endif
    return (bx > ax) ? (l < r) : (l > r);
}
template<size_t N> static void poly(){
    float px[N], py[N]; for (size_t i = 0; i < N; ++i) { px[i] = v("px"); py[i] = v("py"); } const float x = v("x"), y = v("y"); bool e = false, lx = false, hx = false, ly = false, hy = false;
    for (size_t i = 0; i < N; ++i) { const size_t j = (i + N - 1)%N; if ((px[i] > x) != (px[j] > x) && above(x, y, px[i], py[i], px[j], py[j])) e = !e; lx = lx || px[i] <= x; hx = hx || px[i] >= x; ly = ly || py[i] <= y; hy = hy || py[i] >= y; }
    vc_assert(ffmath::inPolygon(x, y, px, py, N) == (e && lx && hx && ly && hy), "inside by the even-odd rule");
}
//@ harness poly3 prop=C22 mode=real stubset=real unroll=8
VC_HARNESS(poly3){ poly<3>(); }
//@ harness poly4 prop=C22 mode=real stubset=real unroll=8 tier=thorough budget=300
VC_HARNESS(poly4){ poly<4>(); }
VC_SEARCH(poly4n){ poly<4>(); }
VC_SEARCH(poly7){ poly<7>(); }
// inside a triangle: on the same side of all its edges
//@ harness triangle prop=C22 mode=real stubset=real unroll=8
static float side(float ax, float ay, float bx, float by, float x, float y){ return (bx - ax)*(y - ay) - (by - ay)*(x - ax); }
VC_HARNESS(triangle){
    float px[3], py[3]; for (size_t i = 0; i < 3; ++i) { px[i] = v("px"); py[i] = v("py"); } const float x = v("x"), y = v("y"); const float a = side(px[0], py[0], px[1], py[1], x, y), b = side(px[1], py[1], px[2], py[2], x, y), c = side(px[2], py[2], px[0], py[0], x, y);
    const float t = VC_NATIVE ? 0.05f : 0.0f; const bool in = ffmath::inPolygon(x, y, px, py, 3); if ((a > t && b > t && c > t) || (a < -t && b < -t && c < -t)) vc_assert(in, "points inside"); if ((a > t && b < -t) || (b > t && c < -t) || (c > t && a < -t) || (a < -t && b > t)) vc_assert(!in, "points outside");
}
#ifdef QVC
extern "C" __attribute__((used)) bool ST_same(float a, float b, float){ return a == b; }
#endif
