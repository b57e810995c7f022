//! time_quick: 120
//! time_thorough: 850
//! bound: polynomials of degree 1 to 4 over float and double whose roots are symbolic whole numbers (degree 1: up to 100000, degree 2: -40..40, 3: -6..6, 4: -3..3, thorough -6..6) or conjugate pairs of them, in any mixture, with a leading coefficient of 1, -1, 2 or -4; arrays, views with an offset, one to two rows at a time; an output given; triangular and block matrices of order 1 to 3 with such eigenvalues; every other type of array refused
//! assume: the eigenvalue routine is replaced by one that delivers the exact values for the matrices that have them and something else for all others (the replay uses the real one, with a tolerance of 0.3)
#include "mathops.h"
#include <lube/math.h>
#include <lube/c++lapack.h>
enum { MAXN = 4 };
struct Roots_ {
    int n; long re[MAXN], im[MAXN], c[MAXN + 1];   // c: coefficients of the monic polynomial
    void sym(int deg, int pairs, long m) {
        n = deg; c[0] = 1; for (int i = 1; i <= n; i++) c[i] = 0;
        int k = 0, d = 0;
        for (int p = 0; p < pairs; p++) {
            long a = __sym_range("real", -m, m), b = __sym_range("imag", 1, m);
            re[k] = a; im[k++] = b; re[k] = a; im[k++] = -b;
            long q[3] = {1, -2 * a, a * a + b * b}; times(q, 2, d); d += 2;
        }
        while (k < n) { long a = __sym_range("root", -m, m); re[k] = a; im[k++] = 0; long q[2] = {1, -a}; times(q, 1, d); d++; }
    }
    void times(const long* q, int dq, int d) {
        long r[MAXN + 1];
        for (int i = 0; i <= d + dq; i++) { r[i] = 0; for (int j = 0; j <= dq; j++) if (i - j >= 0 && i - j <= d) r[i] += q[j] * c[i - j]; }
        for (int i = 0; i <= d + dq; i++) c[i] = r[i];
    }
    void reg() const { __stub_eigen_add(n, c, re, im); }
};
static long limit(int n) { return n == 1 ? 100000 : n == 2 ? 40 : n == 4 && !THOROUGH ? 3 : 6; }
static long lead() { static const long l[4] = {1, -1, 2, -4}; return l[num("lead", 0, 3)]; }
// each expected value appears in the result exactly as often as it should
template <class T> static void same_values(const T* re, const T* im, int stride, const Roots_& x) {
    bool used[MAXN] = {false, false, false, false};
    for (int i = 0; i < x.n; i++) {
        bool found = false;
        for (int k = 0; k < x.n && !found; k++) {
            T dr = re[k * stride] - (T)x.re[i], di = im[k * stride] - (T)x.im[i];
            bool eq = __sym_is_native() ? (dr < 0 ? -dr : dr) < (T)0.3 * (x.n == 1 ? 1e-3 : 1) && (di < 0 ? -di : di) < (T)0.3 : (dr == 0) & (di == 0);
            if (eq && !used[k]) { used[k] = true; found = true; }
        }
        CHECK(found, "every root is found, as often as it is one");
    }
}
static void roots_are(var& r, int off, int t, const Roots_& x) {
    if (t == TYPE_FLOAT) { float* p = (float*)r.ptr<cfloat>() + 2 * off; same_values<float>(p, p + 1, 2, x); }
    else { double* p = (double*)r.ptr<cdouble>() + 2 * off; same_values<double>(p, p + 1, 2, x); }
}
static int ctype(int t) { return t == TYPE_FLOAT ? TYPE_CFLOAT : TYPE_CDOUBLE; }
static void one(int n, int pairs, int t, int how) {
    __stub_eigen_reset();
    Roots_ x; x.sym(n, pairs, limit(n)); x.reg();
    long l = lead();
    Arr a; build(a, t, shape(n + 1), 1, how == 1, [&](int i) { return elem_int(t, l * (i <= n ? x.c[i] : 1)); });
    for (int i = 0; i <= n; i++) __sym_assume(num_eq(a.e[a.off + i], elem_int(t, l * x.c[i])));
    var r;
    if (how == 2) { r = view({n}, t == TYPE_FLOAT ? var(cfloat(9, 9)) : var(cdouble(9, 9))); roots(a.v, r); }
    else r = roots(a.v);
    CHECK(r.defined() && (int)r.atype() == ctype(t), "roots are complex numbers of the same precision");
    CHECK(r.size() == n && r.dim() == 1, "as many roots as the degree");
    roots_are(r, 0, t, x);
    a.check("the polynomial is left alone");
}
HARNESS(linear) { one(1, 0, num("type", TYPE_FLOAT, TYPE_DOUBLE), num("how", 0, 2)); __sym_cover("linear end"); }
HARNESS(quadratic) { one(2, num("pairs", 0, 1), num("type", TYPE_FLOAT, TYPE_DOUBLE), num("how", 0, 2)); __sym_cover("quadratic end"); }
HARNESS(cubic) { one(3, num("pairs", 0, 1), num("type", TYPE_FLOAT, TYPE_DOUBLE), num("how", 0, 2)); __sym_cover("cubic end"); }
HARNESS(quartic) { one(4, num("pairs", 0, 2), num("type", TYPE_FLOAT, TYPE_DOUBLE), num("how", 0, 2)); __sym_cover("quartic end"); }
HARNESS(rows) {
    __stub_eigen_reset();
    long l = num("lead", 1, 2); int t = num("type", TYPE_FLOAT, TYPE_DOUBLE), n = num("degree", 1, 2), rows = num("rows", 1, 2), vw = 1;
    Roots_ x[2]; for (int i = 0; i < rows; i++) { x[i].sym(n, n == 2 ? num("pairs", 0, 1) : 0, 6); x[i].reg(); }
    Arr a; build(a, t, shape(rows, n + 1), 0, vw, [&](int i) { return elem_int(t, 0); });
    for (int i = 0; i < rows; i++) for (int k = 0; k <= n; k++) {
        Elem e = elem_int(t, l * x[i].c[k]); a.e[a.off + i * (n + 1) + k] = e;
        if (t == TYPE_FLOAT) a.v.ptr<float>()[i * (n + 1) + k] = f_of(e.a); else a.v.ptr<double>()[i * (n + 1) + k] = d_of(e.a);
    }
    var r = roots(a.v);
    CHECK(r.dim() == 2 && r.shape(0) == rows && r.shape(1) == n, "a row of roots for each row");
    for (int i = 0; i < rows; i++) roots_are(r, i * n, t, x[i]);
    a.check("the polynomials are left alone");
    __sym_cover("rows end");
}
HARNESS(refused) {
    int t = num("type", TYPE_CHAR, TYPE_CDOUBLE);
    __sym_assume(t != TYPE_FLOAT && t != TYPE_DOUBLE);
    if (num("array", 0, 1)) {
        Arr a; build(a, t, shape(3), 0, num("view", 0, 1), [&](int i) { return elem_int(t, i + 1); });
        CHECK(throws([&] { roots(a.v); }), "only polynomials of float or double have roots");
        a.check("the array is left alone");
    } else {
        var v; v.push("a"); v.push(var(1.0)); v.push(var(2.0));
        CHECK(throws([&] { roots(v); }), "an array of anything is no polynomial");
        CHECK(throws([&] { roots(undefined()); }), "nothing is no polynomial");
    }
    __sym_cover("refused end");
}
// the eigenvalues of a matrix
template <class T> static void matrix(int n, bool schur) {
    __stub_eigen_reset();
    int pairs = n > 1 ? num("pairs", 0, 1) : 0, kind = num("kind", 0, 2);
    Roots_ x; x.sym(n, pairs, 6); x.reg();
    T a[9], wr[3] = {99, 99, 99}, wi[3] = {99, 99, 99};
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        bool above = j > i, below = j < i;
        if (i == j) a[i * n + j] = (T)x.re[i];
        else a[i * n + j] = (kind == 1 && above) || (kind == 2 && below) ? (T)__sym_range("elem", -3, 3) : (T)0;
    }
    if (pairs) { a[1] = (T)x.im[0]; a[n] = (T)-x.im[0]; }
    T* z = 0;
    if (schur) lapack::gees<float>(n, (float*)(void*)a, (float*)(void*)wr, (float*)(void*)wi);
    else lapack::geev<T>(n, a, wr, wi);
    same_values<T>(wr, wi, 1, x); (void)z;
}
HARNESS(eigen_double) { matrix<double>(num("order", 1, 3), false); __sym_cover("eigen end"); }
HARNESS(eigen_float) { matrix<float>(num("order", 1, 3), false); __sym_cover("eigen end"); }
HARNESS(schur_float) { matrix<float>(num("order", 1, 3), true); __sym_cover("eigen end"); }
