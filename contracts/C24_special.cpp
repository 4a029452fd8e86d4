// C24: orthogonal polynomials (proved, float arithmetic as real arithmetic) and special functions (accuracy evaluated natively: bounded stand-in).
#ifndef QVC
#define __STDCPP_WANT_MATH_SPEC_FUNCS__ 1
#include <cmath>
#include <cstdio>
#endif
#include "vc.h"
#include "real_stubs.h"
#include <include/ffmath.hpp>
using namespace qlibs;
#ifdef QVC
extern "C" __attribute__((used)) bool ST_same(float a, float b, float){ return a == b; }
#endif
//@ stubs poly map=qlibs::ffmath::isEqual=>ST_same,qlibs::ffmath::isNan=>ST_isNan,qlibs::ffmath::sqrt=>ST_sqrt,qlibs::ffmath::getNan=>ST_nan
//@ harness herm prop=C24 mode=real stubset=poly unroll=12
VC_HARNESS(herm){
    const float x = vc_f32in("x", -3.0f, 3.0f), q = x*x; vc_close(ffmath::hermite(0, x), 1.0f, 1.0, "H0"); vc_close(ffmath::hermite(1, x), 2.0f*x, 1.0, "H1"); vc_close(ffmath::hermite(2, x), 4.0f*q - 2.0f, 10.0, "H2"); vc_close(ffmath::hermite(3, x), (8.0f*q - 12.0f)*x, 100.0, "H3"); vc_close(ffmath::hermite(4, x), (16.0f*q - 48.0f)*q + 12.0f, 1000.0, "H4"); vc_close(ffmath::hermite(5, x), ((32.0f*q - 160.0f)*q + 120.0f)*x, 3000.0, "H5"); vc_close(ffmath::hermite(6, x), ((64.0f*q - 480.0f)*q + 720.0f)*q - 120.0f, 30000.0, "H6");
}
//@ harness lege prop=C24 mode=real stubset=poly unroll=12
VC_HARNESS(lege){
    const float x = vc_f32in("x", -1.0f, 1.0f), q = x*x; vc_close(ffmath::legendre(0, x), 1.0f, 1.0, "P0"); vc_close(ffmath::legendre(1, x), x, 1.0, "P1"); vc_close(2.0f*ffmath::legendre(2, x), 3.0f*q - 1.0f, 1.0, "P2"); vc_close(2.0f*ffmath::legendre(3, x), (5.0f*q - 3.0f)*x, 1.0, "P3"); vc_close(8.0f*ffmath::legendre(4, x), (35.0f*q - 30.0f)*q + 3.0f, 10.0, "P4"); vc_close(8.0f*ffmath::legendre(5, x), ((63.0f*q - 70.0f)*q + 15.0f)*x, 10.0, "P5"); vc_close(16.0f*ffmath::legendre(6, x), ((231.0f*q - 315.0f)*q + 105.0f)*q - 5.0f, 20.0, "P6");
    vc_close(8.0f*ffmath::assoc_legendre(4, 0, x), (35.0f*q - 30.0f)*q + 3.0f, 10.0, "order zero"); vc_assert(ffmath::assoc_legendre(3, 4, x) == 0.0f, "order above the degree");
}
// associated functions; the root of 1 - x^2 enters through its square
//@ harness alege prop=C24 mode=real stubset=poly unroll=12
VC_HARNESS(alege){
    const float x = vc_f32in("x", -1.0f, 1.0f), w = 1.0f - x*x; const float r = ffmath::assoc_legendre(1, 1, x); vc_close(r*r, w, 1.0, "P11"); vc_assert(r >= 0.0f, "no phase"); vc_close(ffmath::assoc_legendre(2, 1, x), 3.0f*x*r, 3.0, "P21"); vc_close(ffmath::assoc_legendre(2, 2, x), 3.0f*r*r, 3.0, "P22"); vc_close(2.0f*ffmath::assoc_legendre(3, 1, x), 3.0f*(5.0f*x*x - 1.0f)*r, 12.0, "P31"); vc_close(ffmath::assoc_legendre(3, 2, x), 15.0f*x*r*r, 15.0, "P32"); vc_close(ffmath::assoc_legendre(3, 3, x), 15.0f*r*r*r, 15.0, "P33"); vc_close(2.0f*ffmath::assoc_legendre(4, 1, x), 5.0f*(7.0f*x*x - 3.0f)*x*r, 30.0, "P41"); vc_close(2.0f*ffmath::assoc_legendre(4, 2, x), 15.0f*(7.0f*x*x - 1.0f)*r*r, 100.0, "P42");
}
//@ harness lagu prop=C24 mode=real stubset=poly unroll=12
VC_HARNESS(lagu){
    const float x = vc_f32in("x", 0.0f, 10.0f); vc_close(ffmath::laguerre(0, x), 1.0f, 1.0, "L0"); vc_close(ffmath::laguerre(1, x), 1.0f - x, 10.0, "L1"); vc_close(2.0f*ffmath::laguerre(2, x), (x - 4.0f)*x + 2.0f, 100.0, "L2"); vc_close(6.0f*ffmath::laguerre(3, x), ((9.0f - x)*x - 18.0f)*x + 6.0f, 1000.0, "L3"); vc_close(24.0f*ffmath::laguerre(4, x), (((x - 16.0f)*x + 72.0f)*x - 96.0f)*x + 24.0f, 1.0e4, "L4");
    const float a1 = 1.0f, a2 = 2.0f; vc_close(2.0f*ffmath::assoc_laguerre(2, 1, x), x*x - 2.0f*(a1 + 2.0f)*x + (a1 + 1.0f)*(a1 + 2.0f), 100.0, "L2 of order 1"); vc_close(2.0f*ffmath::assoc_laguerre(2, 2, x), x*x - 2.0f*(a2 + 2.0f)*x + (a2 + 1.0f)*(a2 + 2.0f), 100.0, "L2 of order 2"); vc_close(6.0f*ffmath::assoc_laguerre(3, 2, x), ((3.0f*(a2 + 3.0f) - x)*x - 3.0f*(a2 + 2.0f)*(a2 + 3.0f))*x + (a2 + 1.0f)*(a2 + 2.0f)*(a2 + 3.0f), 1.0e4, "L3 of order 2");
}
//@ harness nans prop=C24 mode=fp unroll=4
VC_HARNESS(nans){
    const float x = vc_f32("x"); vc_assume(x != x); const float a = ffmath::hermite(2, x), b = ffmath::legendre(2, x), c = ffmath::laguerre(2, x), d = ffmath::assoc_legendre(2, 1, x); vc_assert(a != a && b != b && c != c && d != d, "not a number"); const float e = ffmath::expint(x), f = ffmath::tgamma(x), g = ffmath::lgamma(x); vc_assert(e != e && f != f && g != g, "not a number");
}
//@ harness poles prop=C24 mode=fp unroll=4
VC_HARNESS(poles){ const float i = vc_frombits(0x7F800000u); vc_assert(ffmath::tgamma(0.0f) == i && ffmath::lgamma(0.0f) == i && ffmath::lgamma(-i) == i && ffmath::tgamma(i) == i, "poles and infinity"); const float t = ffmath::tgamma(-i), n = ffmath::tgamma(-3.0f); vc_assert(t != t && n != n && ffmath::lgamma(-3.0f) == i, "negative whole numbers"); const float l = ffmath::laguerre(2, -1.0f); vc_assert(l != l, "laguerre of negative numbers"); }
#if VC_NATIVE
static void near_(const char* n, double a0, double a1, double a2, double y, double r, double tol){ if (!(std::fabs(y - r) <= 1.5*tol*(1.0 + std::fabs(r)))) { static char b[200]; snprintf(b, sizeof b, "%s(%.9g, %.9g, %.9g) = %.9g, expected %.9g", n, a0, a1, a2, y, r); vc_assert(false, b); } }
static float u(const char* n, float lo, float hi){ return vc_f32in(n, lo, hi); }
VC_SEARCH(sAlagu){ const unsigned n = vc_u8("n")%8u, m = vc_u8("m")%5u; const float x = u("x", 0, 10); near_("assoc_laguerre", n, m, x, ffmath::assoc_laguerre(n, m, x), std::assoc_laguerre(n, m, double(x)), 4e-4); }
VC_SEARCH(sAlege){ const unsigned n = vc_u8("n")%8u, m = vc_u8("m")%(n + 1u); const float x = u("x", -1, 1); near_("assoc_legendre", n, m, x, ffmath::assoc_legendre(n, m, x), std::assoc_legendre(n, m, double(x)), 1e-5*(m > 3u ? 945.0*143.0 : 15.0)); }
VC_SEARCH(sHerm){ const unsigned n = vc_u8("n")%8u; const float x = u("x", -3, 3); near_("hermite", n, x, 0, ffmath::hermite(n, x), std::hermite(n, double(x)), 1e-5 + 5e-8*std::pow(2.0*std::fabs(x) + 2.0, double(n))); }
VC_SEARCH(sLege){ const unsigned n = vc_u8("n")%12u; const float x = u("x", -1, 1); near_("legendre", n, x, 0, ffmath::legendre(n, x), std::legendre(n, double(x)), 1e-5); }
VC_SEARCH(sSlege){ const unsigned n = vc_u8("n")%6u, m = vc_u8("m")%(n + 1u); const float x = u("x", 0.0f, 3.14f); near_("sph_legendre", n, m, x, ffmath::sph_legendre(n, m, x), std::sph_legendre(n, m, double(x)), 8e-3); }
VC_SEARCH(sBeta){ const float x = u("x", 0.1f, 10), y = u("y", 0.1f, 10); near_("beta", x, y, 0, ffmath::beta(x, y), std::beta(double(x), double(y)), 2e-5); }
VC_SEARCH(sGamma){ const float x = u("x", 0.05f, 33); near_("tgamma", x, 0, 0, ffmath::tgamma(x), std::tgamma(double(x)), 5e-5); }
VC_SEARCH(sGammaN){ const float x = u("x", -8, -0.05f); const double f = std::fabs(x - std::round(x)); vc_assume(f > 0.01); near_("tgamma", x, 0, 0, ffmath::tgamma(x), std::tgamma(double(x)), 0.02); near_("lgamma", x, 0, 0, ffmath::lgamma(x), std::lgamma(double(x)), 0.02); }
VC_SEARCH(sLgamma){ const float x = vc_bool("far") ? u("x", 12, 1e6f) : u("x", 1e-3f, 12); near_("lgamma", x, 0, 0, ffmath::lgamma(x), std::lgamma(double(x)), 3e-6); }
VC_SEARCH(sComp){ const float k = u("k", -0.99f, 0.99f), n = u("n", -2, 0.8f); near_("comp_ellint_1", k, 0, 0, ffmath::comp_ellint_1(k), std::comp_ellint_1(double(k)), 2e-5); near_("comp_ellint_2", k, 0, 0, ffmath::comp_ellint_2(k), std::comp_ellint_2(double(k)), 2e-5); near_("comp_ellint_3", k, n, 0, ffmath::comp_ellint_3(k, n), std::comp_ellint_3(double(k), double(n)), 3e-3); }
VC_SEARCH(sEll){ const float k = u("k", -0.9f, 0.9f), n = u("n", -2, 0.8f), p = u("p", -1.5f, 1.5f); near_("ellint_1", k, p, 0, ffmath::ellint_1(k, p), std::ellint_1(double(k), double(p)), 3e-3); near_("ellint_2", k, p, 0, ffmath::ellint_2(k, p), std::ellint_2(double(k), double(p)), 3e-3); near_("ellint_3", k, n, p, ffmath::ellint_3(k, n, p), std::ellint_3(double(k), double(n), double(p)), 8e-3); }
VC_SEARCH(sExpint){ const float x = u("x", -50, 60); vc_assume(x > 1e-3f || x < -1e-3f); near_("expint", x, 0, 0, ffmath::expint(x), std::expint(double(x)), 2e-5); }
VC_SEARCH(sZeta){ const float s = vc_bool("neg") ? u("s", -5, 0.9f) : u("s", 1.1f, 20); near_("riemann_zeta", s, 0, 0, ffmath::riemann_zeta(s), std::riemann_zeta(double(s)), s > 1.0f ? 1e-5 : 8e-3); }
VC_SEARCH(sSph){ const unsigned n = vc_u8("n")%5u; const float x = u("x", 0.0f, 20), y = u("y", 0.7f, 20); near_("sph_bessel", n, x, 0, ffmath::sph_bessel(n, x), std::sph_bessel(n, double(x)), 3e-3); const unsigned m = n%4u; near_("sph_neumann", m, y, 0, ffmath::sph_neumann(m, y), std::sph_neumann(m, double(y)), 8e-3); }
VC_SEARCH(sCyl){ const float k = static_cast<float>(vc_u8("k")%33u)/8.0f, x = u("x", 0.0f, 20), y = u("y", 0.5f, 20), z = u("z", 0.0f, 3.0f), w = u("w", 0.2f, 8.0f); near_("cyl_bessel_j", k, x, 0, ffmath::cyl_bessel_j(k, x), std::cyl_bessel_j(double(k), double(x)), 1e-4); near_("cyl_neumann", k, y, 0, ffmath::cyl_neumann(k, y), std::cyl_neumann(double(k), double(y)), 1e-2); near_("cyl_bessel_i", k, z, 0, ffmath::cyl_bessel_i(k, z), std::cyl_bessel_i(double(k), double(z)), 1e-4); near_("cyl_bessel_k", k, w, 0, ffmath::cyl_bessel_k(k, w), std::cyl_bessel_k(double(k), double(w)), 0.05); }
#endif
