// Shared by the harnesses: typed elements, a reference list, exact comparison.
#pragma once
#include <lube/lube.h>
#include <lube/module.h>
#include <string.h>
#include <complex>
#include <exception>
#include <typeinfo>
#include "sym.h"
using namespace libube;

#define CHECK(c, m) __sym_assert((c), (m))
static const int T_FIRST = TYPE_CHAR, T_LAST = TYPE_CDOUBLE;
static const char* const T_NAME[] = {"array", "char", "int", "long", "float", "double", "cfloat", "cdouble", "var"};

// One element of a fundamental type, held as raw bits so that comparison is exact.
struct Elem {
    int t;
    unsigned long a, b;
};
static inline float f_of(unsigned long u) { unsigned int x = (unsigned int)u; float f; memcpy(&f, &x, 4); return f; }
static inline double d_of(unsigned long u) { double d; memcpy(&d, &u, 8); return d; }
static inline unsigned long bits_of(float f) { unsigned int x; memcpy(&x, &f, 4); return x; }
static inline unsigned long bits_of(double d) { unsigned long x; memcpy(&x, &d, 8); return x; }

static inline var elem_var(const Elem& e) {
    switch (e.t) {
    case TYPE_CHAR: return var((char)e.a);
    case TYPE_INT: return var((int)e.a);
    case TYPE_LONG: return var((long)e.a);
    case TYPE_FLOAT: return var(f_of(e.a));
    case TYPE_DOUBLE: return var(d_of(e.a));
    case TYPE_CFLOAT: return var(cfloat(f_of(e.a), f_of(e.b)));
    case TYPE_CDOUBLE: return var(cdouble(d_of(e.a), d_of(e.b)));
    }
    return var();
}
// a symbolic element of type t, every bit pattern
static inline Elem elem_sym(int t, const char* name) {
    Elem e; e.t = t; e.a = e.b = 0;
    switch (t) {
    case TYPE_CHAR: e.a = (unsigned long)(long)(signed char)__sym_bits(name, 8); break;
    case TYPE_INT: e.a = (unsigned long)(long)(int)__sym_bits(name, 32); break;
    case TYPE_LONG: e.a = __sym_bits(name, 64); break;
    case TYPE_FLOAT: e.a = __sym_bits(name, 32); break;
    case TYPE_DOUBLE: e.a = __sym_bits(name, 64); break;
    case TYPE_CFLOAT: e.a = __sym_bits(name, 32); e.b = __sym_bits(name, 32); break;
    case TYPE_CDOUBLE: e.a = __sym_bits(name, 64); e.b = __sym_bits(name, 64); break;
    }
    return e;
}
// a fixed distinguishable element
static inline Elem elem_num(int t, int k) {
    Elem e; e.t = t; e.a = e.b = 0;
    switch (t) {
    case TYPE_CHAR: e.a = (unsigned long)(long)(signed char)(k + 33); break;
    case TYPE_INT: case TYPE_LONG: e.a = (unsigned long)(long)(k * 3 + 1); break;
    case TYPE_FLOAT: e.a = bits_of((float)(k + 0.5f)); break;
    case TYPE_DOUBLE: e.a = bits_of((double)(k + 0.25)); break;
    case TYPE_CFLOAT: e.a = bits_of((float)(k + 0.5f)); e.b = bits_of((float)(k - 7.f)); break;
    case TYPE_CDOUBLE: e.a = bits_of((double)(k + 0.5)); e.b = bits_of((double)(k - 7.)); break;
    }
    return e;
}
// the raw value held by v, which has to have type t
static inline Elem elem_of(const var& v, int t) {
    Elem e; e.t = t; e.a = e.b = 0;
    switch (t) {
    case TYPE_CHAR: e.a = (unsigned long)(long)(signed char)v.get<char>(); break;
    case TYPE_INT: e.a = (unsigned long)(long)v.get<int>(); break;
    case TYPE_LONG: e.a = (unsigned long)v.get<long>(); break;
    case TYPE_FLOAT: e.a = bits_of(v.get<float>()); break;
    case TYPE_DOUBLE: e.a = bits_of(v.get<double>()); break;
    case TYPE_CFLOAT: { cfloat c = v.get<cfloat>(); e.a = bits_of(c.real()); e.b = bits_of(c.imag()); break; }
    case TYPE_CDOUBLE: { cdouble c = v.get<cdouble>(); e.a = bits_of(c.real()); e.b = bits_of(c.imag()); break; }
    }
    return e;
}
static inline bool elem_eq(const Elem& x, const Elem& y) { return x.t == y.t && (x.a == y.a) & (x.b == y.b); }
// does v hold element e (a cdouble is held as an array of one)?
static inline bool holds(const var& v, const Elem& e) {
    if (!v.defined() || (int)v.atype() != e.t) return false;
    if (v.size() != 1) return false;
    return elem_eq(elem_of(v, e.t), e);
}

// A plain reference list.
template <class T> struct RefList {
    enum { CAP = 80 };
    T d[CAP]; int n;
    RefList() : n(0) {}
    void insert(int i, const T& e) { for (int k = n; k > i; k--) d[k] = d[k - 1]; d[i] = e; n++; }
    T remove(int i) { T r = d[i]; for (int k = i; k + 1 < n; k++) d[k] = d[k + 1]; n--; return r; }
};
typedef RefList<Elem> EList;

static inline bool str_eq(const var& v, const char* s, int n) {
    if (!v.defined() || !v.heap() || (int)v.atype() != TYPE_CHAR || v.size() != n) return false;
    return memcmp(v.str(), s, n) == 0 && v.str()[n] == 0;
}
static inline bool str_eq(const var& v, const char* s) { return str_eq(v, s, (int)strlen(s)); }
static inline void str_check(const var& v, const char* s, int n, const char* msg) {
    CHECK(v.defined() && v.heap() && (int)v.atype() == TYPE_CHAR, msg);
    CHECK(v.size() == n, msg);
    const char* p = v.str();
    bool ok = true;
    for (int i = 0; i < n; i++) ok &= p[i] == s[i];
    CHECK(ok, msg);
    CHECK(p[n] == 0, msg);
}
// Run f; true if it threw anything that derives from std::exception.
template <class F> static inline bool throws(F f) {
    try { f(); } catch (const std::exception&) { return true; }
    return false;
}
static const var& undefined() { static var n; return n; }
