// Fourier transforms, for whichever library (C33, C41)
#include "mathops.h"
#include <lube/dft.h>
enum { L = 1000 };
// the fall-back library has single precision only, and real transforms of even size
#ifdef KISS
static int any_type() { return num("complex", 0, 1) ? TYPE_CFLOAT : TYPE_FLOAT; }
static int complex_type() { return TYPE_CFLOAT; }
#else
static int any_type() { return num("type", TYPE_FLOAT, TYPE_CDOUBLE); }
static int complex_type() { return num("type", TYPE_CFLOAT, TYPE_CDOUBLE); }
#define KISS 0
#endif
static long re(const Elem& e) { return e.t == TYPE_FLOAT || e.t == TYPE_CFLOAT ? (long)f_of(e.a) : (long)d_of(e.a); }
static long im(const Elem& e) { return e.t == TYPE_CFLOAT ? (long)f_of(e.b) : e.t == TYPE_CDOUBLE ? (long)d_of(e.b) : 0; }
static int complex_of(int t) { return t == TYPE_FLOAT || t == TYPE_CFLOAT ? TYPE_CFLOAT : TYPE_CDOUBLE; }
static var proto(int t) { return elem_var(elem_int(t, 0)); }
// coefficient k of row x of n
static Elem coeff(const Elem* x, int n, int k, int rt) {
    long a = 0, b = 0;
    for (int j = 0; j < n; j++) {
        long p = re(x[j]), q = im(x[j]);
        switch (j * k * (4 / n) % 4) { case 0: a += p; b += q; break; case 1: a += q; b -= p; break; case 2: a -= p; b -= q; break; default: a -= q; b += p; }
    }
    return elem_int(rt, a, b);
}
static Shape rows_of(int rank, int n) {
    if (rank == 1) return shape(n);
    if (rank == 2) { int r = num("rows", 1, 3); return shape(r, n); }
    if (rank == 4) return n < 4 ? shape(2, 2, 2, n) : shape(2, 1, 2, n);
    int p = num("planes", 1, 2); return shape(p, 2, n);
}
static void transforms(int t) {
    int n = 1 << num("size", KISS && !cplx_(t), 2), rank = num("rank", 1, 4); bool vw = rank > 1 || num("view", 0, 1);
    int m = cplx_(t) ? n : n / 2 + 1, ct = complex_of(t);
    if (!vw && n == 1 && t == TYPE_CDOUBLE) return; // that is a scalar
    long mk = __sym_leak_mark();
    {
        Shape s = rows_of(rank, n), q = s; q.d[rank - 1] = m; int rows = s.size() / n;
        Arr a; int_arr(a, t, s, 1, vw, -L, L);
        DFT dft(n, proto(t)); IDFT idft(n, proto(t));
        Elem e[40]; for (int i = 0; i < rows; i++) for (int k = 0; k < m; k++) e[i * m + k] = coeff(&a.at(i * n), n, k, ct);
        var r = dft(a.v);
        is_arr(r, ct, q, [&](int i) { return e[i]; }, false, "the coefficients of each row");
        a.check("the input is left alone");
        // once more, into an output
        Arr o; int_arr(o, ct, q, 1, true, 0, 3);
        dft(a.v, o.v);
        for (int i = 0; i < o.n; i++) o.at(i) = e[i];
        bool ok = true; for (int i = 0; i < o.total; i++) ok &= num_eq(raw(o.base, ct, i), o.e[i]);
        CHECK(ok, "into an output, nothing around it");
        a.check("the input is left alone");
        if (!(q.size() == 1 && !r.view() && ct == TYPE_CDOUBLE)) {
            var b = idft(r);
            is_arr(b, t, s, [&](int i) { return a.at(i); }, false, "the inverse of the transform is the input");
            is_arr(r, ct, q, [&](int i) { return e[i]; }, false, "the coefficients are left alone");
        }
    }
    __sym_leak_check(mk, "storage and descriptors");
    __sym_cover("transforms end");
}
HARNESS(transform_float) { transforms(TYPE_FLOAT); }
HARNESS(transform_cfloat) { transforms(TYPE_CFLOAT); }
HARNESS(default_type) {
    Arr a; int_arr(a, TYPE_FLOAT, shape(4), 1, false, -L, L); DFT dft(4); IDFT idft(4);
    var r = dft(a.v); CHECK(r.atype<cfloat>() && r.size() == 3, "single precision real is the default");
    var b = idft(r); is_arr(b, TYPE_FLOAT, shape(4), [&](int i) { return a.at(i); }, false, "back");
    __sym_cover("default end");
}
// any coefficients of a complex transform
HARNESS(inverse) {
    int t = complex_type(), n = 1 << num("size", 1, 2), rows = num("rows", 1, 2); Arr a; int_arr(a, t, shape(rows, n), 1, true, -L, L);
    IDFT idft(n, proto(t)); DFT dft(n, proto(t)); var b = idft(a.v);
    CHECK((int)b.atype() == t && b.dim() == 2 && b.size() == rows * n, "type and shape");
    Elem c[8]; for (int i = 0; i < rows; i++) for (int k = 0; k < n; k++) c[i * n + k] = coeff(&a.at(i * n), n, (n - k) % n, t); // conjugate order
    bool ok = true;
    for (int i = 0; i < rows * n; i++) { Elem x = raw(b, t, i); if (t == TYPE_CFLOAT) ok &= (f_of(x.a) == f_of(c[i].a) / (float)n) & (f_of(x.b) == f_of(c[i].b) / (float)n); else ok &= (d_of(x.a) == d_of(c[i].a) / n) & (d_of(x.b) == d_of(c[i].b) / n); }
    CHECK(ok, "the inverse divided by its size");
    a.check("the coefficients are left alone");
    __sym_cover("inverse end");
}
HARNESS(longer_rows) { // the first n of each row
    int t = any_type(), rows = num("rows", 1, 2), ct = complex_of(t), m = cplx_(t) ? 2 : 2; Arr a; int_arr(a, t, shape(rows, 3), 1, true, -L, L);
    DFT dft(2, proto(t)); var r = dft(a.v); Elem e[8];
    for (int i = 0; i < rows; i++) for (int k = 0; k < m; k++) e[i * m + k] = coeff(&a.at(i * 3), 2, k, ct);
    is_arr(r, ct, shape(rows, m), [&](int i) { return e[i]; }, false, "the coefficients of the beginning of each row");
    a.check("the input is left alone");
    __sym_cover("longer end");
}
HARNESS(refused) {
    int t = any_type(), k = num("which", 0, 4), inv = num("inverse", 0, 1), n = 4, u = inv ? complex_of(t) : t, len = inv && !cplx_(t) ? 3 : 4;
    Arr a; long mk = __sym_leak_mark();
    {
        DFTBase f(n, inv, proto(t)); var x;
        switch (k) {
        case 0: int_arr(a, u, shape(len - 1), 1, num("view", 0, 1), -L, L); break;                     // too short
        case 1: int_arr(a, u == TYPE_FLOAT ? TYPE_DOUBLE : TYPE_FLOAT, shape(len), 1, false, -L, L); break; // another type
        case 2: int_arr(a, TYPE_INT, shape(len), 1, false, -L, L); break;
        case 3: int_arr(a, u, shape(2, len - 1), 1, true, -L, L); break;
        case 4: if (u == TYPE_CDOUBLE) return; int_arr(a, u, shape(1), 1, false, -L, L); a.v = a.v.at(0); break; // not an array
        }
        if (k == 4) CHECK(throws([&] { f(a.v); }), "a scalar is refused");
        else { CHECK(throws([&] { f(a.v); }), "refused"); a.check("left alone"); }
        a = Arr();
    }
    __sym_leak_check(mk, "storage and descriptors");
    __sym_cover("refused end");
}
HARNESS(refused_output) {
    int t = any_type(), k = num("which", 0, 4), ct = complex_of(t), m = cplx_(t) ? 4 : 3;
    Arr a, o; int_arr(a, t, shape(4), 1, false, -L, L); DFT f(4, proto(t));
    switch (k) {
    case 0: int_arr(o, ct, shape(m - 1), 1, false, 0, 3); break;
    case 1: int_arr(o, ct == TYPE_CFLOAT ? TYPE_CDOUBLE : TYPE_CFLOAT, shape(m), 1, false, 0, 3); break;
    case 2: int_arr(o, TYPE_FLOAT, shape(m), 1, false, 0, 3); break;
    }
    if (k > 2) { var s; if (k == 3) s = 5; CHECK(throws([&] { f(a.v, s); }), "refused"); a.check("left alone"); CHECK(k == 4 ? !s.defined() : s.atype<int>() && !s.heap() && s.get<int>() == 5, "left alone"); }
    else { CHECK(throws([&] { f(a.v, o.v); }), "refused"); a.check("left alone"); o.check("left alone"); }
    __sym_cover("refused end");
}
HARNESS(refused_in_place) {
    int t = complex_type(), inv = num("inverse", 0, 1); Arr a; int_arr(a, t, shape(4), 1, false, -L, L); DFTBase f(4, inv, proto(t));
    CHECK(throws([&] { f(a.v, a.v); }), "refused in place"); a.check("left alone");
    __sym_cover("refused end");
}
HARNESS(refused_size) {
    int k = num("which", 0, KISS ? 5 : 2), t = any_type(), inv = num("inverse", 0, 1); long mk = __sym_leak_mark();
    if (k == 5 && t != TYPE_FLOAT) return;
    { var p = k == 2 ? var(1) : k == 3 ? proto(TYPE_DOUBLE) : k == 4 ? proto(TYPE_CDOUBLE) : proto(t); CHECK(throws([&] { DFTBase f(k == 0 ? 0 : k == 1 ? -2 : k == 5 ? 3 : 4, inv, p); }), "no transform of that size or type"); }
    __sym_leak_check(mk, "storage and descriptors");
    __sym_cover("refused end");
}
