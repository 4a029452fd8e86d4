// C08: search, query, fill and replace over raw arrays: any portion first..last (inclusive), any contents, any predicate.
#include "vc.h"
#include <include/algorithm.hpp>
using namespace qlibs;
typedef uint8_t E;
#ifdef QVC
static const size_t N = 1u << 20;
#else
static const size_t N = 9u;
#endif
typedef E Arr[N];
static uint8_t* gP;                     // arbitrary predicate over the element type
static uint8_t* gF;                    // arbitrary function over the element type
static bool pred(const E x){ return (gP[x] & 1u) != 0u; }
static bool predR(const E& x){ return (gP[x] & 1u) != 0u; }
static void fn(E& x){ x = gF[x]; }
static E* gA;
// portion first..last; element k of it
#define ANY_ARR() \
    gA = vc_arr<E>("a", N); Arr& a = *reinterpret_cast<Arr*>(gA); const size_t k = vc_index("k", N); const E ak = gA[k]; \
    const size_t first = vc_index("first", N), last = vc_index("last", N); (void)a; (void)ak; (void)first; (void)last
#define ANY_PRED() gP = vc_arr<uint8_t>("pred", vc_size("pn", 256u, 257u)); const bool pk = pred(ak); (void)pk

//@ harness fill prop=C08 cut=*
VC_HARNESS(fill){
    ANY_ARR(); const E v = vc_u8("v"); vc_assume(first <= last);
    algorithm::fill(a, v, first, last);
    vc_assert(gA[k] == ((k >= first && k <= last) ? v : ak), "fill writes the whole portion and nothing else");
}
//@ harness fillAll prop=C08 cut=*
VC_HARNESS(fillAll){ ANY_ARR(); const E v = vc_u8("v"); algorithm::fill(a, v); vc_assert(gA[k] == v, "fill writes every element"); }
//@ harness find prop=C08 cut=*
VC_HARNESS(find){
    ANY_ARR(); const E key = vc_u8("key");
    E* const r = algorithm::find(a, key, first, last);
    const bool in = (k >= first && k <= last);
    if (r == nullptr) vc_assert(!in || ak != key, "not found means no element of the portion matches");
    else {
        const size_t i = static_cast<size_t>(r - gA);
        vc_assert(i >= first && i <= last && *r == key, "a found element lies in the portion and matches");
        vc_assert(!in || k >= i || ak != key, "it is the first match");
    }
    vc_assert(gA[k] == ak, "find changes nothing");
}
//@ harness find_if prop=C08 cut=*
VC_HARNESS(find_if){
    ANY_ARR(); ANY_PRED();
    E* const r = algorithm::find_if(a, pred, first, last);
    const bool in = (k >= first && k <= last);
    if (r == nullptr) vc_assert(!in || !pk, "not found means no element of the portion satisfies the predicate");
    else {
        const size_t i = static_cast<size_t>(r - gA);
        vc_assert(i >= first && i <= last && pred(*r), "a found element lies in the portion and satisfies the predicate");
        vc_assert(!in || k >= i || !pk, "it is the first such element");
    }
    vc_assert(gA[k] == ak, "find_if changes nothing");
}

//@ harness anyall prop=C08 cut=*
VC_HARNESS(anyall){
    ANY_ARR(); ANY_PRED(); vc_assume(first <= last); const bool in = (k >= first && k <= last);
    const bool any = algorithm::any_of(a, pred, first, last);
    const bool all = algorithm::all_of(a, pred, first, last);
    vc_assert(!(in && pk) || any, "any_of is true when some element of the portion satisfies the predicate");
    vc_assert(!(in && !pk) || !all, "all_of is false when some element of the portion does not");
    vc_assert(gA[k] == ak, "any_of and all_of change nothing");
}
static bool notPred(const E x){ return !pred(x); }
//@ harness anyWitness prop=C08 cut=*
VC_HARNESS(anyWitness){   // the other direction: true (any_of) and false (all_of) have a witness
    ANY_ARR(); ANY_PRED();
    vc_assert(algorithm::any_of(a, pred, first, last) == (algorithm::find_if(a, pred, first, last) != nullptr), "any_of is true exactly when find_if finds an element");
    vc_assert(algorithm::all_of(a, pred, first, last) == (algorithm::find_if(a, notPred, first, last) == nullptr), "all_of is true exactly when no element fails the predicate");
}
static size_t gFirst;
// number of satisfying elements among the first j of the portion
extern "C" __attribute__((used,noinline)) uint64_t spec_cnt(const uint8_t* m, uint64_t j){
    if (j == 0u) return 0u;
    return spec_cnt(m, j - 1u) + (pred(m[gFirst + j - 1u]) ? 1u : 0u);
}
extern "C" __attribute__((used)) bool INV_cnt(uint64_t it, uint64_t c){ return c == spec_cnt(gA, it); }
//@ harness count_if prop=C08 cut=* inv=INV_cnt spec=spec_cnt:2
VC_HARNESS(count_if){
    ANY_ARR(); ANY_PRED(); gFirst = first;
    const size_t c = algorithm::count_if(a, pred, first, last);
    vc_assert(c == ((first <= last) ? spec_cnt(gA, last - first + 1u) : 0u), "count_if is the number of satisfying elements of the portion");
    vc_assert(gA[k] == ak, "count_if changes nothing");
}
static bool never(const E){ return false; }
static bool always(const E){ return true; }
//@ harness uniform prop=C08 cut=*
VC_HARNESS(uniform){
    ANY_ARR(); vc_assume(first <= last);
    vc_assert(!algorithm::any_of(a, never, first, last) && algorithm::all_of(a, always, first, last), "uniform predicates");
    vc_assert(algorithm::count_if(a, never, first, last) == 0u, "count_if of nothing is zero");
    vc_assert(algorithm::count_if(a, always, first, last) == last - first + 1u, "count_if of everything is the length of the portion");
}
//@ harness replace prop=C08 cut=*
VC_HARNESS(replace){
    ANY_ARR(); const E o = vc_u8("old"), v = vc_u8("new");
    algorithm::replace(a, o, v, first, last);
    vc_assert(gA[k] == ((k >= first && k <= last && ak == o) ? v : ak), "replace changes every matching element of the portion and nothing else");
}
//@ harness replace_if prop=C08 cut=*
VC_HARNESS(replace_if){
    ANY_ARR(); ANY_PRED(); const E v = vc_u8("new");
    algorithm::replace_if(a, predR, v, first, last);
    vc_assert(gA[k] == ((k >= first && k <= last && pk) ? v : ak), "replace_if changes every satisfying element of the portion and nothing else");
}
//@ harness for_each prop=C08 cut=*
VC_HARNESS(for_each){
    ANY_ARR(); gF = vc_arr<uint8_t>("fn", vc_size("fnn", 256u, 257u)); const E fk = gF[ak];
    algorithm::for_each(a, fn, first, last);
    vc_assert(gA[k] == ((k >= first && k <= last) ? fk : ak), "for_each applies the function once to every element of the portion");
}

static size_t gLast, gp, gq; static E gKey;
// the portion is partitioned with respect to the key (every sorted portion is): smaller elements, then equal ones, then larger ones
static bool partitioned(uint64_t i){ return !(i >= gFirst && i <= gLast && i < N) || ((i < gp) ? gA[i] < gKey : (i < gq) ? gA[i] == gKey : gA[i] > gKey); }
extern "C" __attribute__((used)) bool INV_left(uint64_t, int32_t l){ return l >= static_cast<int32_t>(gFirst) && l <= static_cast<int32_t>(gp); }
extern "C" __attribute__((used)) bool INV_right(uint64_t, int32_t r){ return r <= static_cast<int32_t>(gLast) && r >= static_cast<int32_t>(gq) - 1; }
//@ harness binary_search prop=C08 cut=* inv=INV_left,INV_right
VC_HARNESS(binary_search){
    ANY_ARR(); gKey = vc_u8("key"); vc_assume(first <= last); gFirst = first; gLast = last;
    gp = vc_index("p", N + 1u); gq = vc_index("q", N + 1u); vc_assume(first <= gp && gp <= gq && gq <= last + 1u);
    vc_assume_forall(partitioned, "partitioned with respect to the key");
    E* const r = algorithm::binary_search(a, gKey, first, last);
    if (r == nullptr) vc_assert(gp == gq, "not found means the key is absent");
    else { const size_t i = static_cast<size_t>(r - gA); vc_assert(i >= first && i <= last && *r == gKey, "a found element lies in the portion and equals the key"); }
    vc_assert(gA[k] == ak, "binary_search changes nothing");
}
static bool sortedPortion(size_t first, size_t last){ for (size_t i = first; i < last; ++i) if (gA[i] > gA[i + 1u]) return false; return true; }
VC_SEARCH(bsearch){
    ANY_ARR(); const E key = vc_u8("key"); vc_assume(first <= last);
    for (size_t i = first; i <= last; ++i) gA[i] &= 7u;
    for (size_t i = first; i < last; ++i) for (size_t j = first; j < last; ++j) if (gA[j] > gA[j + 1u]) { const E t = gA[j]; gA[j] = gA[j + 1u]; gA[j + 1u] = t; }
    vc_assume(sortedPortion(first, last));
    E* const r = algorithm::binary_search(a, static_cast<E>(key & 7u), first, last); bool any = false;
    for (size_t i = first; i <= last; ++i) any = any || gA[i] == (key & 7u);
    vc_assert((r != nullptr) == any, "binary_search finds the key exactly when it is present");
    if (r) vc_assert(r >= gA + first && r <= gA + last && *r == (key & 7u), "binary_search returns a matching element");
}
