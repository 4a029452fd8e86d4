// Contracts of the bit-manipulating ffmath helpers, used in place of their bodies where float arithmetic is
// treated as real arithmetic. absf, isEqual, copysign, sign, inRangeCoerce are proved bit-precisely in C21.
#ifndef REAL_STUBS_H
#define REAL_STUBS_H
#include "vc.h"
#ifdef QVC
extern "C" {
__attribute__((used)) float ST_nan(){ return vc_uff1("nan", 0.0f); }
__attribute__((used)) bool  ST_isNan(float){ return false; }
__attribute__((used)) float ST_absf(float x){ return (x < 0.0f) ? -x : x; }
__attribute__((used)) bool  ST_isEqual(float a, float b, float tol){ const float d = (a < b) ? b - a : a - b; const float t = (tol < 0.0f) ? -tol : tol; return d <= t; }
__attribute__((used)) float ST_cos(float x){ const float c = vc_uff1("cos", x); vc_assume(c >= -1.0f && c <= 1.0f); vc_assume(!(x == 0.0f) || c == 1.0f); vc_assume(!(x == 3.14159265358979323846f) || c == -1.0f); return c; }
__attribute__((used)) float ST_sqrt(float x){ const float r = vc_uff1("sqrt", x); vc_assume(!(x >= 0.0f) || (r >= 0.0f && r*r == x)); return r; }
__attribute__((used)) float ST_exp(float x){ const float r = vc_uff1("exp", x); vc_assume(r > 0.0f); vc_assume(!(x == 0.0f) || r == 1.0f); vc_assume(!(x < 0.0f) || r < 1.0f); vc_assume(!(x > 0.0f) || r > 1.0f); return r; }
}
#endif
#endif
