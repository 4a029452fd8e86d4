// C04: a tapped delay line always holds exactly the last n samples, newest first.
#include "vc.h"
#include <include/tdl.hpp>
using namespace qlibs;
static const uint64_t MAXN = 1ull << 30;

#ifdef QVC
static tdl* gT; static float* gA; static size_t gn; static float gInit;
// representation invariant: full ring over [area, area+n), write position w, newest sample just before it
static bool repOk(const tdl& t, const float* a, size_t n, size_t w){
    return t.head == a && t.tail == a + n && t.itemCount == n && t.wr == a + w && t.rd == a + ((w == 0u) ? n - 1u : w - 1u);
}
// an arbitrary delay line satisfying the invariant
#define ANY_TDL() \
    const size_t n = vc_size("n", 1u, MAXN); float* const a = vc_arr<float>("area", n); \
    const size_t w = vc_index("w", n); tdl t; \
    t.head = a; t.tail = a + n; t.itemCount = n; t.wr = a + w; t.rd = a + ((w == 0u) ? n - 1u : w - 1u)
extern "C" __attribute__((used)) bool INV_wr(uint64_t it){ return it <= gn && gT->wr == gA + ((it < gn) ? it : 0u); }
extern "C" __attribute__((used)) bool INV_cfg(uint64_t){ return gT->head == gA && gT->tail == gA + gn && gT->itemCount == gn && gT->rd == gA + (gn - 1u); }
extern "C" __attribute__((used)) bool INVQ_fill(uint64_t it, uint64_t k){ return !(k < it && k < gn) || vc_bits(gA[k]) == vc_bits(gInit); }

//@ harness setup prop=C04 internal cut=qlibs::tdl::flush inv=INV_wr,INV_cfg,INVQ_fill
VC_HARNESS(setup){
    gn = vc_size("n", 1u, MAXN); gA = vc_arr<float>("area", gn); gInit = vc_f32("init");
    tdl t; gT = &t;
    vc_assert(!t.isInitialized(), "a default line is not initialized");
    t.setup(gA, gn, gInit);
    vc_assert(t.isInitialized(), "setup initializes");
    vc_assert(repOk(t, gA, gn, 0u), "setup establishes the invariant");
    const size_t i = vc_index("i", gn);
    vc_assert(vc_bits(t.getAtIndex(i)) == vc_bits(gInit), "after setup every tap holds the initial value");
}
//@ harness flush prop=C04 internal cut=qlibs::tdl::flush inv=INV_wr,INV_cfg,INVQ_fill
VC_HARNESS(flush){
    ANY_TDL(); gn = n; gA = a; gT = &t; gInit = vc_f32("init");
    t.flush(gInit);
    vc_assert(repOk(t, a, n, 0u), "flush re-establishes the invariant");
    const size_t i = vc_index("i", n);
    vc_assert(vc_bits(t.getAtIndex(i)) == vc_bits(gInit), "after flush every tap holds the given value");
}
//@ harness insert prop=C04 internal
VC_HARNESS(insert){
    ANY_TDL(); const float x = vc_f32("x"); const size_t i = vc_index("i", n);
    const float old = t.getAtIndex(i);
    if (vc_bool("call")) t(x); else t.insertSample(x);
    vc_assert(repOk(t, a, n, (w + 1u == n) ? 0u : w + 1u), "insertSample preserves the invariant");
    vc_assert(vc_bits(t.getAtIndex(0)) == vc_bits(x), "the newest sample is at index 0");
    vc_assert(vc_bits(t.getRecent()) == vc_bits(x), "getRecent is the newest sample");
    if (i + 1u < n) vc_assert(vc_bits(t.getAtIndex(i + 1u)) == vc_bits(old), "every older sample moves one place");
}
//@ harness observe prop=C04 internal
VC_HARNESS(observe){
    ANY_TDL();
    const size_t i = vc_index("i", n); const float v = t.getAtIndex(i);
    vc_assert(vc_bits(v) == vc_bits(a[(w >= i + 1u) ? w - 1u - i : w + n - 1u - i]), "getAtIndex(i) is the sample inserted i steps before the newest");
    vc_assert(vc_bits(t[static_cast<int>(i)]) == vc_bits(v), "operator[] agrees with getAtIndex");
    vc_assert(vc_bits(t.getRecent()) == vc_bits(t.getAtIndex(0)), "getRecent is index 0");
    vc_assert(vc_bits(t.getOldest()) == vc_bits(t.getAtIndex(n - 1u)), "getOldest is the last index");
    vc_assert(vc_bits(t[-1]) == vc_bits(t.getOldest()), "operator[](-1) is the oldest");
    const int j = vc_i32("j"); vc_assume(j < -1 || (j >= 0 && static_cast<size_t>(j) >= n));
    vc_assert(vc_isnan(t[j]), "an index outside the line yields not-a-number");
    const size_t k = vc_index("k", n); const float ak = a[k];
    (void)t.getAtIndex(i); (void)t[j]; (void)t[static_cast<int>(i)]; (void)t.getOldest();
    vc_assert(repOk(t, a, n, w) && vc_bits(a[k]) == vc_bits(ak), "observers change nothing");
}
#endif
// histories against a plain list (public interface)
static void hist(size_t n, int form){
    float area[8]; float ref[8]; const float init = vc_f32in("init", -1e3f, 1e3f);
    tdl t; 
    if (form == 0) t.setup(area, n, init); else { t.setup(area, n); t.flush(init); }
    for (size_t i = 0; i < n; ++i) ref[i] = init;
    for (int s = 0; s < 20; ++s) {
        for (size_t i = 0; i < n; ++i) {
            vc_assert(t.getAtIndex(i) == ref[i], "history: tap"); vc_assert(t[static_cast<int>(i)] == ref[i], "history: operator[]");
        }
        vc_assert(t.getRecent() == ref[0] && t.getOldest() == ref[n - 1u] && t[-1] == ref[n - 1u], "history: newest and oldest");
        vc_assert(vc_isnan(t[static_cast<int>(n)]) && vc_isnan(t[-2]), "history: out of range");
        const float x = vc_f32in("x", -1e3f, 1e3f); const uint8_t op = vc_u8("op");
        if (op % 16u == 0u) { t.flush(x); for (size_t i = 0; i < n; ++i) ref[i] = x; }
        else { if (op & 1u) t.insertSample(x); else t(x); for (size_t i = n - 1u; i > 0u; --i) ref[i] = ref[i - 1u]; ref[0] = x; }
    }
}
//@ harness hist3 prop=C04 unroll=30
VC_HARNESS(hist3){
    // fixed-size overloads: constructor and setup over arrays
    float a3[3]; const float x = vc_f32("x"), y = vc_f32("y"), z = vc_f32("z"), w = vc_f32("w"), i0 = vc_f32("i");
    tdl t(a3, i0); t(x); 
    vc_assert(vc_bits(t[0]) == vc_bits(x) && vc_bits(t[1]) == vc_bits(i0) && vc_bits(t[2]) == vc_bits(i0), "constructor over an array");
    t(y); t(z); t(w);
    vc_assert(vc_bits(t[0]) == vc_bits(w) && vc_bits(t[1]) == vc_bits(z) && vc_bits(t[2]) == vc_bits(y), "three taps hold the last three samples");
    tdl u; float b2[2]; u.setup(b2, i0); u(x); u(y); u(z);
    vc_assert(vc_bits(u[0]) == vc_bits(z) && vc_bits(u[1]) == vc_bits(y), "setup over an array");
    tdl v(a3, 2u, i0); v(x);
    vc_assert(vc_bits(v[0]) == vc_bits(x) && vc_bits(v[1]) == vc_bits(i0) && vc_isnan(v[2]), "constructor with explicit length");
}
VC_SEARCH(history){ hist(vc_size("n", 1u, 8u), vc_u8("form") & 1); }
