// C07: reordering algorithms over raw arrays: sort, reverse, rotate and swap permute exactly the portion they name.
#include "vc.h"
#include <include/algorithm.hpp>
using namespace qlibs;
typedef uint8_t E;
#ifdef QVC
static const size_t N = 1u << 20;
#else
static const size_t N = 9u;
#endif
typedef E Arr[N];
static E* gA; static size_t gk, gm, gf, gl; static E ek, em;
static bool done(uint64_t it, size_t k){ return (k >= gf && k < gf + it) || (k <= gl && k > gl - it); }
// the pair of mirrored positions k, m = first+last-k is exchanged once the ends have passed it
extern "C" __attribute__((used)) bool INV_out(uint64_t){ return (gk >= gf && gk <= gl) || gA[gk] == ek; }
extern "C" __attribute__((used)) bool INV_k(uint64_t it){ return !(gk >= gf && gk <= gl) || gA[gk] == (done(it, gk) ? em : ek); }
extern "C" __attribute__((used)) bool INV_m(uint64_t it){ return !(gk >= gf && gk <= gl) || gA[gm] == (done(it, gm) ? ek : em); }
extern "C" __attribute__((used)) bool INV_ends(uint64_t it){ return it <= N && 2u*it <= gl - gf + 1u; }
//@ harness reverse prop=C07 cut=* inv=INV_out,INV_k,INV_m,INV_ends invt=60
VC_HARNESS(reverse){
    gA = vc_arr<E>("a", N); Arr& a = *reinterpret_cast<Arr*>(gA);
    gf = vc_index("first", N); gl = vc_index("last", N); vc_assume(gf <= gl);
    gk = vc_index("k", N); const bool in = (gk >= gf && gk <= gl); gm = in ? gf + gl - gk : gk;
    ek = gA[gk]; em = gA[gm];
    algorithm::reverse(a, gf, gl);
    vc_assert(gA[gk] == em, "reverse mirrors the portion and changes nothing else");
}
//@ harness reverseEmpty prop=C07 cut=*
VC_HARNESS(reverseEmpty){
    gA = vc_arr<E>("a", N); Arr& a = *reinterpret_cast<Arr*>(gA);
    const size_t f = vc_index("first", N), l = vc_index("last", N), k = vc_index("k", N); vc_assume(f >= l); const E x = gA[k];
    algorithm::reverse(a, f, l); vc_assert(gA[k] == x, "an empty or single portion is unchanged");
}
template<typename T, size_t n> static void fillIn(T (&a)[n]){ for (size_t i = 0; i < n; ++i) a[i] = static_cast<T>(vc_u32("a")); }
// rotation by any k: element i moves to (i + k) mod n
template<size_t n> static void rot(){
    uint32_t a[n], o[n]; fillIn(a); for (size_t i = 0; i < n; ++i) o[i] = a[i];
    const int32_t k = vc_i32("k");
    algorithm::rotate(a, k);
    for (size_t i = 0; i < n; ++i) { const size_t j = static_cast<size_t>((static_cast<int64_t>(i) + (static_cast<int64_t>(k) % static_cast<int64_t>(n)) + static_cast<int64_t>(n)) % static_cast<int64_t>(n)); vc_assert(a[j] == o[i], "rotate moves every element by k places"); }
}
//@ harness rotate1 prop=C07 unroll=16 nocut
VC_HARNESS(rotate1){ rot<1>(); }
//@ harness rotate2 prop=C07 unroll=16 nocut
VC_HARNESS(rotate2){ rot<2>(); }
//@ harness rotate4 prop=C07 unroll=16 nocut
VC_HARNESS(rotate4){ rot<4>(); }
//@ harness rotate5 prop=C07 unroll=16 nocut
VC_HARNESS(rotate5){ rot<5>(); }
//@ harness rotate7 prop=C07 unroll=16 nocut
VC_HARNESS(rotate7){ rot<7>(); }
//@ harness rotateDefault prop=C07 unroll=16 nocut
VC_HARNESS(rotateDefault){ uint32_t a[3]; fillIn(a); const uint32_t x = a[0], y = a[1], z = a[2]; algorithm::rotate(a); vc_assert(a[0] == z && a[1] == x && a[2] == y, "the default rotation is one place to the right"); }
//@ harness swap prop=C07
VC_HARNESS(swap){ uint32_t x = vc_u32("x"), y = vc_u32("y"); const uint32_t x0 = x, y0 = y; algorithm::swap(x, y); vc_assert(x == y0 && y == x0, "swap exchanges"); algorithm::swap(x, x); vc_assert(x == y0, "swap with itself"); }

static uint8_t gMask, gXor;
static E key(E x){ return static_cast<E>((x & gMask) ^ gXor); }
static bool less(const E& x, const E& y){ return key(x) < key(y); }
static bool desc(const float& x, const float& y){ return x > y; }
template<size_t n, bool CMP> static void srt(bool whole, bool perm = true){
    E a[n], o[n]; for (size_t i = 0; i < n; ++i) { a[i] = vc_u8("a"); o[i] = a[i]; }
    const size_t f = whole ? 0u : vc_index("first", n), l = whole ? n - 1u : vc_index("last", n); vc_assume(f <= l);
    gMask = CMP ? vc_u8("mask") : 255u; gXor = CMP ? vc_u8("xor") : 0u;
    if (CMP) algorithm::sort(a, f, l, less); else if (whole) algorithm::sort(a); else algorithm::sort(a, f, l);
    const E v = vc_u8("v"); unsigned before = 0u, after = 0u; bool ordered = true, same = true;
    for (size_t i = 0; i < n; ++i) {
        if (i >= f && i <= l) { before += (o[i] == v); after += (a[i] == v); }
        else same = same && a[i] == o[i];
        if (i + 1u < n && i >= f && i + 1u <= l) ordered = ordered && !less(a[i + 1u], a[i]);
    }
    vc_assert(ordered, "the portion is in order");
    if (perm) vc_assert(before == after, "the portion is a permutation of what it was");
    vc_assert(same, "elements outside the portion are unchanged");
}
//@ harness sort1 prop=C07 unroll=16 nocut
VC_HARNESS(sort1){ srt<1, false>(true); }
//@ harness sort2 prop=C07 unroll=16 nocut
VC_HARNESS(sort2){ srt<2, true>(false); }
//@ harness sort3 prop=C07 unroll=16 nocut
VC_HARNESS(sort3){ srt<3, true>(false); }
//@ harness sort4 prop=C07 unroll=16 nocut
VC_HARNESS(sort4){ srt<4, false>(true); }
//@ harness sort4c prop=C07 unroll=16 nocut
VC_HARNESS(sort4c){ srt<4, true>(true); }
//@ harness sort5 prop=C07 unroll=16 nocut
VC_HARNESS(sort5){ srt<5, false>(true, false); }
//@ harness sort5p prop=C07 unroll=16 nocut
VC_HARNESS(sort5p){ srt<5, true>(false, false); }
VC_SEARCH(sort9){ if (vc_bool("c")) srt<9, true>(false); else srt<9, false>(vc_bool("whole")); }
VC_SEARCH(sort40){ if (vc_bool("c")) srt<40, true>(false); else srt<40, false>(vc_bool("whole")); }
