// Arrays and views of numbers, symbolic or not, next to plain reference arrays.
#pragma once
#include "common.h"
#include <vector>
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static bool cplx_(int t) { return t == TYPE_CFLOAT || t == TYPE_CDOUBLE; }
// whole numbers as elements of type t
static Elem elem_int(int t, long re, long im = 0) {
    Elem e; e.t = t; e.a = e.b = 0;
    switch (t) {
    case TYPE_CHAR: e.a = (unsigned long)(long)(signed char)re; break;
    case TYPE_INT: e.a = (unsigned long)(long)(int)re; break;
    case TYPE_LONG: e.a = (unsigned long)re; break;
    case TYPE_FLOAT: e.a = bits_of((float)re); break;
    case TYPE_DOUBLE: e.a = bits_of((double)re); break;
    case TYPE_CFLOAT: e.a = bits_of((float)re); e.b = bits_of((float)im); break;
    case TYPE_CDOUBLE: e.a = bits_of((double)re); e.b = bits_of((double)im); break;
    }
    return e;
}
// element i of any numeric array, view or scalar without going through references
static Elem raw(var& v, int t, int i) {
    Elem e; e.t = t; e.a = e.b = 0;
    switch (t) {
    case TYPE_CHAR: e.a = (unsigned long)(long)(signed char)v.ptr<char>()[i]; break;
    case TYPE_INT: e.a = (unsigned long)(long)v.ptr<int>()[i]; break;
    case TYPE_LONG: e.a = (unsigned long)v.ptr<long>()[i]; break;
    case TYPE_FLOAT: e.a = bits_of(v.ptr<float>()[i]); break;
    case TYPE_DOUBLE: e.a = bits_of(v.ptr<double>()[i]); break;
    case TYPE_CFLOAT: { cfloat c = v.ptr<cfloat>()[i]; e.a = bits_of(c.real()); e.b = bits_of(c.imag()); break; }
    case TYPE_CDOUBLE: { cdouble c = v.ptr<cdouble>()[i]; e.a = bits_of(c.real()); e.b = bits_of(c.imag()); break; }
    }
    return e;
}
// equal as numbers (0 and -0 are)
static bool num_eq(const Elem& x, const Elem& y) {
    switch (x.t) {
    case TYPE_FLOAT: return f_of(x.a) == f_of(y.a);
    case TYPE_DOUBLE: return d_of(x.a) == d_of(y.a);
    case TYPE_CFLOAT: return (f_of(x.a) == f_of(y.a)) & (f_of(x.b) == f_of(y.b));
    case TYPE_CDOUBLE: return (d_of(x.a) == d_of(y.a)) & (d_of(x.b) == d_of(y.b));
    }
    return x.a == y.a;
}
// equal bits, or both not a number
static bool bit_eq(const Elem& x, const Elem& y) {
    switch (x.t) {
    case TYPE_FLOAT: { float a = f_of(x.a), b = f_of(y.a); return (x.a == y.a) | ((a != a) & (b != b)); }
    case TYPE_DOUBLE: { double a = d_of(x.a), b = d_of(y.a); return (x.a == y.a) | ((a != a) & (b != b)); }
    case TYPE_CFLOAT: { float a = f_of(x.a), b = f_of(y.a), c = f_of(x.b), d = f_of(y.b); return ((x.a == y.a) | ((a != a) & (b != b))) & ((x.b == y.b) | ((c != c) & (d != d))); }
    case TYPE_CDOUBLE: { double a = d_of(x.a), b = d_of(y.a), c = d_of(x.b), d = d_of(y.b); return ((x.a == y.a) | ((a != a) & (b != b))) & ((x.b == y.b) | ((c != c) & (d != d))); }
    }
    return x.a == y.a;
}
// A shape of rank 1 to 4
struct Shape {
    int rank, d[4];
    int size() const { int n = 1; for (int i = 0; i < rank; i++) n *= d[i]; return n; }
};
static Shape shape(int a) { Shape s = {1, {a, 1, 1, 1}}; return s; }
static Shape shape(int a, int b) { Shape s = {2, {a, b, 1, 1}}; return s; }
static Shape shape(int a, int b, int c, int d) { Shape s = {4, {a, b, c, d}}; return s; }
static Shape shape(int a, int b, int c) { Shape s = {3, {a, b, c, 1}}; return s; }
// entries named larger: a few larger shapes instead of all small ones
static bool large_, huge_;
static Shape larger(int rank) {
    if (huge_) switch (num("huge", rank == 1 ? 0 : 2, 4)) {
    case 0: return shape(300); case 1: return shape(1030); case 2: return shape(3, 130); case 3: return shape(130, 2); case 4: return shape(3, 5, 20); }
    switch (num("larger", rank == 1 ? 0 : 2, 6)) {
    case 0: return shape(9); case 1: return shape(17); case 2: return shape(4, 5); case 3: return shape(7, 3);
    case 4: return shape(2, 3, 4); case 5: return shape(2, 2, 2, 2); }
    return shape(3, 1, 2, 2);
}
// An array with its storage: `base` holds size()+2*pad elements, of which `v` shows the middle ones.
struct Arr {
    var base, v; int t, off, n, total; Shape s; std::vector<Elem> e;
    // every element as it should be
    void check(const char* msg) {
        bool ok = true;
        for (int i = 0; i < total; i++) ok &= elem_eq(raw(base, t, i), e[i]);
        CHECK(ok, msg);
    }
    Elem& at(int i) { return e[off + i]; }
};
static void grow(Arr& a) { if (!a.base.heap()) a.base.array(); a.base.resize(a.total); }
// gen(i) gives element i
template <class G> static void build(Arr& a, int t, Shape s, int pad, bool view, G gen) {
    a.t = t; a.s = s; a.n = s.size(); a.off = view ? pad : 0; a.total = a.n + 2 * a.off; a.e.resize(a.total);
    for (int i = 0; i < a.total; i++) a.e[i] = gen(i);
    // made from raw data, so that building it is not what is tested
    switch (t) {
    case TYPE_CHAR: { a.base = (char)0; grow(a); char* p = a.base.ptr<char>(); for (int i = 0; i < a.total; i++) p[i] = (char)a.e[i].a; break; }
    case TYPE_INT: { a.base = 0; grow(a); int* p = a.base.ptr<int>(); for (int i = 0; i < a.total; i++) p[i] = (int)a.e[i].a; break; }
    case TYPE_LONG: { a.base = (long)0; grow(a); long* p = a.base.ptr<long>(); for (int i = 0; i < a.total; i++) p[i] = (long)a.e[i].a; break; }
    case TYPE_FLOAT: { a.base = 0.f; grow(a); float* p = a.base.ptr<float>(); for (int i = 0; i < a.total; i++) p[i] = f_of(a.e[i].a); break; }
    case TYPE_DOUBLE: { a.base = 0.; grow(a); double* p = a.base.ptr<double>(); for (int i = 0; i < a.total; i++) p[i] = d_of(a.e[i].a); break; }
    case TYPE_CFLOAT: { a.base = cfloat(0, 0); grow(a); cfloat* p = a.base.ptr<cfloat>(); for (int i = 0; i < a.total; i++) p[i] = cfloat(f_of(a.e[i].a), f_of(a.e[i].b)); break; }
    case TYPE_CDOUBLE: { a.base = cdouble(0, 0); grow(a); cdouble* p = a.base.ptr<cdouble>(); for (int i = 0; i < a.total; i++) p[i] = cdouble(d_of(a.e[i].a), d_of(a.e[i].b)); break; }
    }
    if (!view) a.v = a.base;
    else switch (s.rank) {
    case 1: a.v = a.base.view({s.d[0]}, a.off); break;
    case 2: a.v = a.base.view({s.d[0], s.d[1]}, a.off); break;
    case 3: a.v = a.base.view({s.d[0], s.d[1], s.d[2]}, a.off); break;
    case 4: a.v = a.base.view({s.d[0], s.d[1], s.d[2], s.d[3]}, a.off); break;
    }
}
// another view of the storage of an array
static var look(Arr& a, const Shape& s, int off) { var sh; for (int i = 0; i < s.rank; i++) sh.push((int)s.d[i]); return a.base.view(sh, off); }
static int place(int n) { return num("at", 0, 1) ? n - 1 : n / 2 + 1; }
static void sym_arr(Arr& a, int t, Shape s, int pad, bool view) {
    if (huge_) { int at = place(s.size()) + (view ? pad : 0); build(a, t, s, pad, view, [&](int i) { return i == at ? elem_sym(t, "elem") : elem_int(t, i * 5 % 23 - 11, i % 7 - 3); }); return; }
    build(a, t, s, pad, view, [&](int) { return elem_sym(t, "elem"); });
}
static void int_arr(Arr& a, int t, Shape s, int pad, bool view, int lo, int hi) {
    build(a, t, s, pad, view, [&](int) { long x = __sym_range("elem", lo, hi), y = cplx_(t) ? __sym_range("imag", lo, hi) : 0; return elem_int(t, x, y); });
}
// given whole numbers, one symbolic one anywhere among them
static void one_sym(Arr& a, int t, Shape s, int pad, bool view, int lim) {
    int n = s.size(), k = huge_ ? 0 : num("at", 0, 3), at = (huge_ ? place(n) : k == 3 ? n - 1 : k == 2 ? n / 2 + 1 : k * (n / 4)) + (view ? pad : 0);
    build(a, t, s, pad, view, [&](int i) { long x = i == at ? __sym_range("elem", -lim, lim) : (i * 5 % 7) - 3, y = i % 3 - 1; return elem_int(t, x, y); });
}
// `r` has type t, this shape, and the elements given
template <class G> static void is_arr(var& r, int t, Shape s, G gen, bool exact, const char* msg) {
    CHECK(r.defined() && (int)r.atype() == t, msg);
    CHECK(r.dim() == s.rank && r.size() == s.size(), msg);
    for (int i = 0; i < s.rank; i++) CHECK((long)r.shape(i) == s.d[i], msg);
    bool ok = true;
    for (int i = 0; i < s.size(); i++) { Elem x = raw(r, t, i), y = gen(i); ok &= exact ? bit_eq(x, y) : num_eq(x, y); }
    CHECK(ok, msg);
}
