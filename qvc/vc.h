// Specification interface: the same harness is (1) compiled to LLVM IR and verified for all inputs by qvc,
// (2) compiled natively to replay counterexamples on the real code.
#ifndef VC_H
#define VC_H
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint8_t  vc_u8(const char* name);
uint16_t vc_u16(const char* name);
uint32_t vc_u32(const char* name);
uint64_t vc_u64(const char* name);
float    vc_f32(const char* name);                       // any value
float    vc_f32in(const char* name, float lo, float hi); // lo <= x <= hi
uint64_t vc_size(const char* name, uint64_t lo, uint64_t hi); // lo <= n <= hi
uint64_t vc_index(const char* name, uint64_t n);         // arbitrary index < n
void*    vc_array(const char* name, uint64_t n, uint64_t es, int kind, float lo, float hi);
void     vc_assume(bool c);
void     vc_assert(bool c, const char* what);
void     vc_close(double a, double b, double scale, const char* what); // equal as reals; natively |a-b| <= tol*scale
void     vc_cover(const char* what);
float    vc_uff1(const char* f, float x);
uint32_t vc_ufu6(const char* f, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t e, uint32_t g);
float    vc_uff2(const char* f, float x, float y);
void     vc_assume_forall(bool (*p)(uint64_t k), const char* what); // fact for every k (instantiated on demand)
}
static inline bool     vc_bool(const char* n){ return (vc_u8(n) & 1u) != 0u; }
static inline int32_t  vc_i32(const char* n){ return static_cast<int32_t>(vc_u32(n)); }
template<typename T> struct vc_kind { enum { v = 0 }; };
template<> struct vc_kind<float> { enum { v = 1 }; };
template<typename T> static inline T* vc_arr(const char* n, size_t len){ return static_cast<T*>(vc_array(n, len, sizeof(T), vc_kind<T>::v, 0.0f, 0.0f)); }
static inline float* vc_farr(const char* n, size_t len, float lo, float hi){ return static_cast<float*>(vc_array(n, len, 4, 1, lo, hi)); }
static inline uint32_t vc_bits(float x){ uint32_t u; memcpy(&u, &x, 4); return u; }
static inline float vc_frombits(uint32_t u){ float x; memcpy(&x, &u, 4); return x; }
static inline bool vc_isnan(float x){ return x != x; }
static inline bool vc_same(float a, float b){ return vc_bits(a) == vc_bits(b) || (a != a && b != b); } // identical value (any NaN equals any NaN)
static inline bool vc_finite(float x){ return (vc_bits(x) & 0x7F800000u) != 0x7F800000u; }
#ifdef QVC
#define VC_HARNESS(n) extern "C" __attribute__((used,noinline)) void h_##n()
#define VC_SEARCH(n) template<int> static void s_unused_##n()
#define VC_NATIVE 0
#else
#define VC_NATIVE 1
struct vc_reg { vc_reg(const char*, void(*)(), int); };
#define VC_HARNESS(n) extern "C" void h_##n(); static vc_reg reg_##n(#n, h_##n, 0); extern "C" void h_##n()
#define VC_SEARCH(n) static void h_##n(); static vc_reg reg_##n(#n, h_##n, 1); static void h_##n()
#endif
#endif
