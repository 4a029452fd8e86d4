// C09: fixed-size matrices: every operation computes the algebraic result element by element and touches nothing else.
#include <iostream>
#include "vc.h"
#include <include/mat.hpp>
using namespace qlibs;
static const float L = 8.0f;
template<size_t R, size_t C> static mat<R, C> any(){ mat<R, C> a; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) a[i][j] = vc_f32in("m", -L, L); return a; }
#define EACH(R, C) for (size_t i = 0; i < (R); ++i) for (size_t j = 0; j < (C); ++j)
static void same(double x, double y, const char* w){ vc_close(x, y, 1000.0, w); }

template<size_t R, size_t C> static void elementwise(){
    const mat<R, C> a = any<R, C>(), b = any<R, C>(); const float s = vc_f32in("s", -L, L);
    const mat<R, C> sum = a + b, dif = a - b, neg = -a, sm = s*a, ms = a*s, sp = s + a, ps = a + s, sn = s - a, ns = a - s; const mat<C, R> tr = !a;
    EACH(R, C) {
        same(sum[i][j], static_cast<double>(a[i][j]) + b[i][j], "sum of matrices"); same(dif[i][j], static_cast<double>(a[i][j]) - b[i][j], "difference of matrices");
        same(neg[i][j], -static_cast<double>(a[i][j]), "negation"); same(sm[i][j], static_cast<double>(s)*a[i][j], "scalar times matrix"); same(ms[i][j], static_cast<double>(s)*a[i][j], "matrix times scalar");
        same(sp[i][j], static_cast<double>(s) + a[i][j], "scalar plus matrix"); same(ps[i][j], static_cast<double>(s) + a[i][j], "matrix plus scalar");
        same(sn[i][j], static_cast<double>(s) - a[i][j], "scalar minus matrix"); same(ns[i][j], static_cast<double>(a[i][j]) - s, "matrix minus scalar");
        vc_assert(tr[j][i] == a[i][j], "transpose");
    }
}
//@ harness elem23 prop=C09 mode=real
VC_HARNESS(elem23){ elementwise<2, 3>(); }
//@ harness elem31 prop=C09 mode=real
VC_HARNESS(elem31){ elementwise<3, 1>(); }
//@ harness elem33 prop=C09 mode=real
VC_HARNESS(elem33){ elementwise<3, 3>(); }

template<size_t R, size_t C> static void compound(){
    const mat<R, C> a = any<R, C>(), b = any<R, C>(); const float s = vc_f32in("s", -L, L);
    mat<R, C> p = a, m = a, x = a, d = a, sp = a, sm = a, in = a, de = a, pi = a, pd = a;
    mat<R, C>& rp = (p += b); mat<R, C>& rm = (m -= b); mat<R, C>& rx = (x *= s); mat<R, C>& rsp = (sp += s); mat<R, C>& rsm = (sm -= s); mat<R, C>& rin = ++in; mat<R, C>& rde = --de;
    const mat<R, C> opi = pi++, opd = pd--;
    if (s != 0.0f) { mat<R, C>& rd = (d /= s); vc_assert(&rd == &d, "compound operators return their target"); }
    const mat<R, C> q = (s != 0.0f) ? a/s : a;
    vc_assert(&rp == &p && &rm == &m && &rx == &x && &rsp == &sp && &rsm == &sm && &rin == &in && &rde == &de, "compound operators return their target");
    EACH(R, C) {
        same(p[i][j], static_cast<double>(a[i][j]) + b[i][j], "+="); same(m[i][j], static_cast<double>(a[i][j]) - b[i][j], "-="); same(x[i][j], static_cast<double>(a[i][j])*s, "*= scalar");
        same(sp[i][j], static_cast<double>(a[i][j]) + s, "+= scalar"); same(sm[i][j], static_cast<double>(a[i][j]) - s, "-= scalar");
        if (s != 0.0f) { vc_close(d[i][j], static_cast<double>(a[i][j])/s, 1.0 + 100.0/(s*s), "/= scalar"); vc_close(q[i][j], static_cast<double>(a[i][j])/s, 1.0 + 100.0/(s*s), "matrix divided by scalar"); }
        same(in[i][j], static_cast<double>(a[i][j]) + 1.0, "pre-increment"); same(de[i][j], static_cast<double>(a[i][j]) - 1.0, "pre-decrement");
        same(pi[i][j], static_cast<double>(a[i][j]) + 1.0, "post-increment"); same(pd[i][j], static_cast<double>(a[i][j]) - 1.0, "post-decrement");
        vc_assert(opi[i][j] == a[i][j] && opd[i][j] == a[i][j], "post-increment and post-decrement return the old matrix");
    }
}
//@ harness comp23 prop=C09 mode=real
VC_HARNESS(comp23){ compound<2, 3>(); }
//@ harness comp22 prop=C09 mode=real
VC_HARNESS(comp22){ compound<2, 2>(); }

template<size_t R, size_t K, size_t C> static void product(){
    const mat<R, K> a = any<R, K>(); const mat<K, C> b = any<K, C>(); const mat<R, C> p = a*b;
    EACH(R, C) { double e = 0.0; for (size_t k = 0; k < K; ++k) e += static_cast<double>(a[i][k])*b[k][j]; same(p[i][j], e, "matrix product"); }
}
//@ harness prod232 prop=C09 mode=real
VC_HARNESS(prod232){ product<2, 3, 2>(); }
//@ harness prod323 prop=C09 mode=real
VC_HARNESS(prod323){ product<3, 2, 3>(); }
//@ harness prod141 prop=C09 mode=real
VC_HARNESS(prod141){ product<1, 4, 1>(); }
//@ harness prodSelf prop=C09 mode=real
VC_HARNESS(prodSelf){
    const mat<3, 3> a = any<3, 3>(), b = any<3, 3>(); mat<3, 3> p = a; mat<3, 3>& r = (p *= b); mat<3, 3> q = a; q *= q;
    vc_assert(&r == &p, "compound product returns its target");
    EACH(3, 3) { double e = 0.0, f = 0.0; for (size_t k = 0; k < 3u; ++k) { e += static_cast<double>(a[i][k])*b[k][j]; f += static_cast<double>(a[i][k])*a[k][j]; } same(p[i][j], e, "compound matrix product"); same(q[i][j], f, "compound product with itself"); }
}
//@ harness access prop=C09
VC_HARNESS(access){
    mat<2, 3> a; EACH(2, 3) vc_assert(vc_bits(a[i][j]) == 0u, "a default matrix is zero");
    float v[6]; for (int i = 0; i < 6; ++i) v[i] = vc_f32("v");
    mat<2, 3> b(v[0], v[1], v[2], v[3], v[4], v[5]);
    const mat<2, 3> c(b); mat<2, 3> d; mat<2, 3>& r = (d = b); d = d;
    vc_assert(&r == &d, "assignment returns its target");
    EACH(2, 3) {
        vc_assert(vc_same(b[i][j], v[i*3u + j]) && vc_same(b(i, j), v[i*3u + j]) && vc_same(b(i*3u + j), v[i*3u + j]), "row-major construction and access");
        vc_assert(vc_same(c[i][j], v[i*3u + j]) && vc_same(c(i*3u + j), v[i*3u + j]) && vc_same(d[i][j], v[i*3u + j]), "copy and assignment");
    }
    const size_t i = vc_index("i", 2u), j = vc_index("j", 3u), k = vc_index("k", 6u); const float x = vc_f32("x");
    mat<2, 3> e = b; e(i, j) = x; vc_assert(vc_same(e(k), (k == i*3u + j) ? x : v[k]), "a write through (i,j) changes that element only");
    mat<2, 3> f = b; f(i*3u + j) = x; vc_assert(vc_same(f(k), (k == i*3u + j) ? x : v[k]), "a write through (index) changes that element only");
    mat<3, 3> I(MAT_IDENTITY), Z(MAT_ZERO), A(MAT_ALL, x), D(MAT_IDENTITY, x);
    EACH(3, 3) { vc_assert(I[i][j] == ((i == j) ? 1.0f : 0.0f) && Z[i][j] == 0.0f, "identity and zero"); vc_assert(vc_same(A[i][j], x) && vc_same(D[i][j], (i == j) ? x : 0.0f), "constant and diagonal"); }
}
template<size_t R, size_t C> static void norm(){
    const mat<R, C> a = any<R, C>(); const double n = a.normInf(); double best = 0.0;
    for (size_t i = 0; i < R; ++i) { double s = 0.0; for (size_t j = 0; j < C; ++j) s += (a[i][j] < 0.0f) ? -static_cast<double>(a[i][j]) : a[i][j]; if (s > best) best = s; }
    same(n, best, "the infinity norm is the largest absolute row sum");
}
//@ harness norm23 prop=C09 mode=real
VC_HARNESS(norm23){ norm<2, 3>(); }
//@ harness norm32 prop=C09 mode=real
VC_HARNESS(norm32){ norm<3, 2>(); }
//@ harness norm33 prop=C09 mode=real
VC_HARNESS(norm33){ norm<3, 3>(); }
//@ harness inv1 prop=C09 mode=real
VC_HARNESS(inv1){ mat<1, 1> a; a[0][0] = vc_f32in("a", -L, L); vc_assume(a[0][0] > 0.01f || a[0][0] < -0.01f); const mat<1, 1> r = a.inv(); same(static_cast<double>(r[0][0])*a[0][0], 1.0, "inverse of a 1x1 matrix"); }
static float entry(const char* n){
#ifdef QVC
    return vc_f32(n);      // unrestricted real
#else
    return vc_f32in(n, -L, L);
#endif
}
template<bool SWAP> static void inverse2(){
    mat<2, 2> a; a[0][0] = entry("a"); a[0][1] = entry("b"); a[1][0] = entry("c"); a[1][1] = entry("d");
    const double p = a[0][0], q = a[0][1], r = a[1][0], t = a[1][1], det = p*t - q*r;
    vc_assume((VC_NATIVE != 0) ? (det > 0.5 || det < -0.5) : (det != 0.0));
    vc_assume(SWAP == ((p < 0.0 ? -p : p) < (r < 0.0 ? -r : r)));
    const mat<2, 2> x = a.inv();
    same(x[0][0]*p + x[0][1]*r, 1.0, "2x2 inverse times matrix (0,0)"); same(x[0][0]*q + x[0][1]*t, 0.0, "2x2 inverse times matrix (0,1)");
    same(x[1][0]*p + x[1][1]*r, 0.0, "2x2 inverse times matrix (1,0)"); same(x[1][0]*q + x[1][1]*t, 1.0, "2x2 inverse times matrix (1,1)");
}
//@ harness inv2 prop=C09 mode=real budget=60
VC_HARNESS(inv2){ inverse2<false>(); }
//@ harness inv2s prop=C09 mode=real budget=60
VC_HARNESS(inv2s){ inverse2<true>(); }
template<size_t n> static void invN(){
    mat<n, n> a; EACH(n, n) { a[i][j] = static_cast<float>(static_cast<int>(vc_u8("m") % 7u) - 3); }
    double w[n][n]; EACH(n, n) w[i][j] = a[i][j]; double det = 1.0;                       // determinant by elimination with pivoting
    for (size_t c = 0; c < n; ++c) { size_t p = c; for (size_t r = c + 1u; r < n; ++r) if ((w[r][c] < 0 ? -w[r][c] : w[r][c]) > (w[p][c] < 0 ? -w[p][c] : w[p][c])) p = r;
        if (p != c) { det = -det; for (size_t k = 0; k < n; ++k) { const double t = w[c][k]; w[c][k] = w[p][k]; w[p][k] = t; } }
        det *= w[c][c]; if (w[c][c] == 0.0) break; for (size_t r = c + 1u; r < n; ++r) { const double f = w[r][c]/w[c][c]; for (size_t k = c; k < n; ++k) w[r][k] -= f*w[c][k]; } }
    vc_assume(det > 0.9 || det < -0.9);
    const mat<n, n> x = a.inv()*a; EACH(n, n) vc_close(x[i][j], (i == j) ? 1.0 : 0.0, 2000.0, "inverse times matrix is the identity");
}
VC_SEARCH(invAll){ switch (vc_u8("n") % 3u) { case 0: invN<2>(); break; case 1: invN<3>(); break; default: invN<4>(); } }
