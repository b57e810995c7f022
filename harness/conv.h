// What the language's conversion between fundamental types gives.
#pragma once
#include "common.h"
static bool cplx(int t) { return t == TYPE_CFLOAT || t == TYPE_CDOUBLE; }
// is the value of e representable in type t (after truncation)?
static bool representable(const Elem& e, int t) {
    double d;
    switch (e.t) {
    case TYPE_FLOAT: case TYPE_CFLOAT: d = f_of(e.a); break;
    case TYPE_DOUBLE: case TYPE_CDOUBLE: d = d_of(e.a); break;
    default: return true; // integers convert modulo 2^n
    }
    switch (t) {
    case TYPE_CHAR: return (d > -129.) & (d < 128.);
    case TYPE_INT: return (d > -2147483649.) & (d < 2147483648.);
    case TYPE_LONG: return (d >= -9223372036854775808.) & (d < 9223372036854775808.);
    case TYPE_FLOAT: case TYPE_CFLOAT: if (e.t == TYPE_DOUBLE) return (d != d) | ((d >= -3e38) & (d <= 3e38));
        if (e.t == TYPE_CDOUBLE) { double g = d_of(e.b); return (d == d) & (d >= -3e38) & (d <= 3e38) & (g == g) & (g >= -3e38) & (g <= 3e38); }
        return true;
    }
    return true;
}
template <class S> static Elem to_(S s, int t) {
    Elem r; r.t = t; r.a = r.b = 0;
    switch (t) {
    case TYPE_CHAR: r.a = (unsigned long)(long)(signed char)(char)s; break;
    case TYPE_INT: r.a = (unsigned long)(long)(int)s; break;
    case TYPE_LONG: r.a = (unsigned long)(long)s; break;
    case TYPE_FLOAT: case TYPE_CFLOAT: r.a = bits_of((float)s); if (t == TYPE_CFLOAT) r.b = bits_of(0.f); break;
    case TYPE_DOUBLE: case TYPE_CDOUBLE: r.a = bits_of((double)s); if (t == TYPE_CDOUBLE) r.b = bits_of(0.); break;
    }
    return r;
}
static Elem conv(const Elem& e, int t) {
    if (e.t == t) return e;
    switch (e.t) {
    case TYPE_CHAR: return to_((char)e.a, t);
    case TYPE_INT: return to_((int)e.a, t);
    case TYPE_LONG: return to_((long)e.a, t);
    case TYPE_FLOAT: return to_(f_of(e.a), t);
    case TYPE_DOUBLE: return to_(d_of(e.a), t);
    case TYPE_CFLOAT: { Elem r = to_(f_of(e.a), t); if (t == TYPE_CDOUBLE) r.b = bits_of((double)f_of(e.b)); return r; }
    default: { Elem r = to_(d_of(e.a), t); if (t == TYPE_CFLOAT) r.b = bits_of((float)d_of(e.b)); return r; }
    }
}
