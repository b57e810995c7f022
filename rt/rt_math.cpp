// Reference BLAS / MKL matcopy (the documented semantics, column major) and complex arithmetic.
// Symbolic build; also used natively when a harness asks for the reference.
#include "sym.h"
typedef float f32; typedef double f64;

typedef _Complex float cf32; typedef _Complex double cf64;
extern "C" {
double __sym_uf1d(const char*, double); double __sym_uf2d(const char*, double, double);
float __sym_uf1f(const char*, float); float __sym_uf2f(const char*, float, float);
double sqrt(double); float sqrtf(float);
double hypot(double, double); float hypotf(float, float);
double atan2(double, double); float atan2f(float, float);

// C99 Annex G multiplication / division as in compiler-rt
#define MULDIV(T, CT, mul, div, cps, inf_, logb_)                                             \
    CT mul(T a, T b, T c, T d) {                                                               \
        T ac = a * c, bd = b * d, ad = a * d, bc = b * c;                                      \
        CT z;                                                                                  \
        __real__ z = ac - bd; __imag__ z = ad + bc;                                            \
        T zr = __real__ z, zi = __imag__ z;                                                    \
        if (__builtin_isnan(zr) && __builtin_isnan(zi)) {                                      \
            int rec = 0;                                                                       \
            if (__builtin_isinf(a) || __builtin_isinf(b)) {                                    \
                a = cps(__builtin_isinf(a) ? 1 : 0, a); b = cps(__builtin_isinf(b) ? 1 : 0, b); \
                if (__builtin_isnan(c)) c = cps(0, c); if (__builtin_isnan(d)) d = cps(0, d);  \
                rec = 1;                                                                       \
            }                                                                                  \
            if (__builtin_isinf(c) || __builtin_isinf(d)) {                                    \
                c = cps(__builtin_isinf(c) ? 1 : 0, c); d = cps(__builtin_isinf(d) ? 1 : 0, d); \
                if (__builtin_isnan(a)) a = cps(0, a); if (__builtin_isnan(b)) b = cps(0, b);  \
                rec = 1;                                                                       \
            }                                                                                  \
            if (!rec && (__builtin_isinf(ac) || __builtin_isinf(bd) || __builtin_isinf(ad) || __builtin_isinf(bc))) { \
                if (__builtin_isnan(a)) a = cps(0, a); if (__builtin_isnan(b)) b = cps(0, b);  \
                if (__builtin_isnan(c)) c = cps(0, c); if (__builtin_isnan(d)) d = cps(0, d);  \
                rec = 1;                                                                       \
            }                                                                                  \
            if (rec) { __real__ z = inf_ * (a * c - b * d); __imag__ z = inf_ * (a * d + b * c); } \
        }                                                                                      \
        return z;                                                                              \
    }                                                                                          \
    CT div(T a, T b, T c, T d) {                                                               \
        CT z;                                                                                  \
        T den = c * c + d * d;                                                                 \
        __real__ z = (a * c + b * d) / den; __imag__ z = (b * c - a * d) / den;                \
        return z;                                                                              \
    }
MULDIV(f64, cf64, __muldc3, __divdc3, __builtin_copysign, __builtin_inf(), 0)
MULDIV(f32, cf32, __mulsc3, __divsc3, __builtin_copysignf, __builtin_inff(), 0)

// libm on complex numbers: uninterpreted, same name -> same function
#define CFUN(n)                                                                                \
    cf64 n(cf64 z) { cf64 r; __real__ r = __sym_uf2d(#n ".re", __real__ z, __imag__ z); __imag__ r = __sym_uf2d(#n ".im", __real__ z, __imag__ z); return r; } \
    cf32 n##f(cf32 z) { cf32 r; __real__ r = __sym_uf2f(#n ".re", __real__ z, __imag__ z); __imag__ r = __sym_uf2f(#n ".im", __real__ z, __imag__ z); return r; }
CFUN(csin) CFUN(ccos) CFUN(ctan) CFUN(catan) CFUN(cexp) CFUN(clog) CFUN(csqrt) CFUN(clog10)
cf64 cpow(cf64 a, cf64 b) { cf64 r; double h = __sym_uf2d("cpow.a", __real__ a, __imag__ a), k = __sym_uf2d("cpow.b", __real__ b, __imag__ b); __real__ r = __sym_uf2d("cpow.re", h, k); __imag__ r = __sym_uf2d("cpow.im", h, k); return r; }
cf32 cpowf(cf32 a, cf32 b) { cf32 r; float h = __sym_uf2f("cpow.a", __real__ a, __imag__ a), k = __sym_uf2f("cpow.b", __real__ b, __imag__ b); __real__ r = __sym_uf2f("cpow.re", h, k); __imag__ r = __sym_uf2f("cpow.im", h, k); return r; }
// modulus: a function of the magnitudes, symmetric, at least the larger and equal to it when the other is zero
#define CABS(T, CT, n, fabs_, uf)                                                              \
    T n(CT z) {                                                                                \
        T a = fabs_(__real__ z), b = fabs_(__imag__ z), lo = a < b ? a : b, hi = a < b ? b : a;  \
        T r = uf("hypot", hi, lo);                                                             \
        r = lo == 0 ? hi : r;                                                                  \
        __sym_assume((hi != hi) | (lo != lo) | (r >= hi));                                     \
        return r;                                                                              \
    }
CABS(double, cf64, cabs, __builtin_fabs, __sym_uf2d)
CABS(float, cf32, cabsf, __builtin_fabsf, __sym_uf2f)
double carg(cf64 z) { return atan2(__imag__ z, __real__ z); }
float cargf(cf32 z) { return atan2f(__imag__ z, __real__ z); }
}
extern "C" { void* __sym_malloc(size_t n, int kind); void __sym_free(void* p, int kind); void __sym_unmodelled(const char*); }
template <class T> struct CX { T re, im; };
#include "rt_blas.inc"
