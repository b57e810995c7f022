//! time_quick: 150
//! time_thorough: 850
//! bound: vectors of 0 to 4 (thorough 6) of every type, complex sums and products of one (thorough: up to 2), the maximum of up to 3, vectors of 7 to 33 and products of 4x5x3 with one symbolic element; row by column products of up to 2x2x2 (thorough 3x3x3) with whole numbers; diagonal band matrices; eigenvalues and vectors of matrices of order 1 and 2 with distinct whole eigenvalues in -9..9, every combination of left and right vectors, and every status from -20 to 20
//! assume: the routines of the libraries are replaced by their textbook definitions (the replay uses the real ones, eigenvectors to a tolerance); complex eigenvectors and Schur vectors are not covered
#include "mathops.h"
#include <lube/c++blas.h>
#include <lube/c++lapack.h>
enum { G = 2, MAX = (THOROUGH ? 6 : 4) + G };
template <class T> struct Ty;
template <> struct Ty<float> { enum { t = TYPE_FLOAT }; };
template <> struct Ty<double> { enum { t = TYPE_DOUBLE }; };
template <> struct Ty<cfloat> { enum { t = TYPE_CFLOAT }; };
template <> struct Ty<cdouble> { enum { t = TYPE_CDOUBLE }; };
template <class T> static T val(long a, long) { return (T)a; }
template <> cfloat val<cfloat>(long a, long b) { return cfloat((float)a, (float)b); }
template <> cdouble val<cdouble>(long a, long b) { return cdouble((double)a, (double)b); }
static long re_(float x) { return (long)x; }
static long re_(double x) { return (long)x; }
template <class T> static long re_(std::complex<T> x) { return (long)x.real(); }
static long im_(float) { return 0; }
static long im_(double) { return 0; }
template <class T> static long im_(std::complex<T> x) { return (long)x.imag(); }
static long mag(long x) { return x < 0 ? -x : x; }
// whole numbers
template <class T> static void ints(T* x, int n, int lim) {
    for (int i = 0; i < n; i++) { long a = __sym_range("elem", -lim, lim), b = cplx_(Ty<T>::t) ? __sym_range("imag", -lim, lim) : 0; x[i] = val<T>(a, b); }
}
// anything at all
template <class T> static void bits(T* x, int n) {
    for (int i = 0; i < n; i++) { Elem e = elem_sym(Ty<T>::t, "elem"); if (sizeof(T) == 16) { memcpy(x + i, &e.a, 8); memcpy((char*)(x + i) + 8, &e.b, 8); } else if (cplx_(Ty<T>::t)) { memcpy(x + i, &e.a, 4); memcpy((char*)(x + i) + 4, &e.b, 4); } else memcpy(x + i, &e.a, sizeof(T)); }
}
template <class T> static bool alike(const T* x, const T* y, int n) {
    bool ok = true; const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y;
    for (int i = 0; i < n * (int)sizeof(T); i++) ok &= a[i] == b[i];
    return ok;
}
template <class T> static void moves() {
    int n = num("n", 0, MAX - G); T x[MAX], y[MAX], p[MAX], q[MAX];
    bits(x, n + G); bits(y, n + G); memcpy((void*)p, (void*)x, sizeof p); memcpy((void*)q, (void*)y, sizeof q);
    blas::copy<T>(n, x, y);
    CHECK(alike(y, p, n), "copied"); CHECK(alike(x, p, n + G) && alike(y + n, q + n, G), "nothing else");
    memcpy((void*)y, (void*)q, sizeof q);
    blas::swap<T>(n, x, y);
    CHECK(alike(y, p, n) && alike(x, q, n), "exchanged"); CHECK(alike(x + n, p + n, G) && alike(y + n, q + n, G), "nothing else");
}
HARNESS(moves_float) { moves<float>(); __sym_cover("moves end"); }
HARNESS(moves_double) { moves<double>(); __sym_cover("moves end"); }
HARNESS(moves_cfloat) { moves<cfloat>(); __sym_cover("moves end"); }
HARNESS(moves_cdouble) { moves<cdouble>(); __sym_cover("moves end"); }
template <class T> static void sums(int lim) {
    int n = num("n", 0, cplx_(Ty<T>::t) ? 1 + THOROUGH : MAX - G); T x[MAX], y[MAX], p[MAX], q[MAX], al[1];
    ints(x, n + G, lim); ints(y, n + G, lim); ints(al, 1, 5); memcpy((void*)p, (void*)x, sizeof p); memcpy((void*)q, (void*)y, sizeof q);
    long r = re_(*al), s = im_(*al);
    blas::axpy<T>(n, *al, x, y);
    bool ok = true;
    for (int i = 0; i < n; i++) ok &= y[i] == val<T>(re_(q[i]) + r * re_(p[i]) - s * im_(p[i]), im_(q[i]) + r * im_(p[i]) + s * re_(p[i]));
    CHECK(ok, "a multiple added"); CHECK(alike(x, p, n + G) && alike(y + n, q + n, G), "nothing else");
    memcpy((void*)y, (void*)q, sizeof q);
    T d = blas::dot<T>(n, x, y); long a = 0, b = 0;
    for (int i = 0; i < n; i++) { a += re_(p[i]) * re_(q[i]) + im_(p[i]) * im_(q[i]); b += re_(p[i]) * im_(q[i]) - im_(p[i]) * re_(q[i]); }
    CHECK(d == val<T>(a, b), "the product of the conjugate of the first and the second"); CHECK(alike(x, p, n + G) && alike(y, q, n + G), "operands left alone");
}
HARNESS(sums_float) { sums<float>(100); __sym_cover("sums end"); }
HARNESS(sums_double) { sums<double>(1000); __sym_cover("sums end"); }
HARNESS(sums_cfloat) { sums<cfloat>(30); __sym_cover("sums end"); }
HARNESS(sums_cdouble) { sums<cdouble>(30); __sym_cover("sums end"); }
template <class T> static void largest() {
    int n = num("n", 0, 3); T x[5], p[5]; ints(x, n + G, 1000); memcpy((void*)p, (void*)x, sizeof p);
    long k = blas::iamax<T>(n, x); CHECK(alike(x, p, n + G), "operand left alone");
    if (!n) CHECK(k == -1, "none of nothing");
    else {
        CHECK(k >= 0 && k < n, "one of them"); long m = mag(re_(p[k])) + mag(im_(p[k])); bool ok = true;
        for (int i = 0; i < n; i++) { long w = mag(re_(p[i])) + mag(im_(p[i])); ok &= w <= m; if (i < k) ok &= w < m; }
        CHECK(ok, "the first of the largest");
    }
}
HARNESS(largest_float) { largest<float>(); __sym_cover("largest end"); }
HARNESS(largest_double) { largest<double>(); __sym_cover("largest end"); }
HARNESS(largest_cfloat) { largest<cfloat>(); __sym_cover("largest end"); }
HARNESS(largest_cdouble) { largest<cdouble>(); __sym_cover("largest end"); }
template <class T> static void scaled() {
    int how = num("how", 0, 2), n = num("n", 0, how == 2 ? 2 + THOROUGH : MAX - G); T x[MAX], y[MAX], z[MAX], p[MAX], q[MAX], w[MAX], al = (T)num("alpha", -1, 3), be = how == 2 ? (T)num("beta", -1, 2) : (T)0;
    ints(x, n + G, 100); ints(y, n + G, 100); ints(z, n + G, 100); memcpy(p, x, sizeof p); memcpy(q, y, sizeof q); memcpy(w, z, sizeof w);
    bool ok = true;
    switch (how) {
    case 0: blas::scal<T>(n, al, x); for (int i = 0; i < n; i++) ok &= x[i] == al * p[i]; CHECK(ok, "scaled"); CHECK(alike(x + n, p + n, G), "nothing else"); break;
    case 1: blas::tbmv<T>(n, 0, x, y); for (int i = 0; i < n; i++) ok &= y[i] == p[i] * q[i]; CHECK(ok, "times a diagonal matrix"); CHECK(alike(x, p, n + G) && alike(y + n, q + n, G), "nothing else"); break;
    case 2: blas::sbmv<T>(n, 0, al, x, y, be, z); for (int i = 0; i < n; i++) ok &= z[i] == al * q[i] * p[i] + be * w[i]; CHECK(ok, "a multiple of the product with a diagonal matrix added"); CHECK(alike(x, p, n + G) && alike(y, q, n + G) && alike(z + n, w + n, G), "nothing else"); break;
    }
}
static float pos(float x) { return __builtin_fabsf(x); }
static double pos(double x) { return __builtin_fabs(x); }
template <class T> static void magnitudes() {
    int n = num("n", 0, MAX - G); T x[MAX], p[MAX]; bits(x, n + G); memcpy(p, x, sizeof p);
    T s = 0; for (int i = 0; i < n; i++) s += pos(p[i]);
    T r = blas::asum<T>(n, x);
    CHECK((r == s) | ((r != r) & (s != s)), "sum of the magnitudes"); CHECK(alike(x, p, n + G), "operand left alone");
}
HARNESS(magnitudes_float) { magnitudes<float>(); __sym_cover("magnitudes end"); }
HARNESS(magnitudes_double) { magnitudes<double>(); __sym_cover("magnitudes end"); }
HARNESS(scaled_float) { scaled<float>(); __sym_cover("scaled end"); }
HARNESS(scaled_double) { scaled<double>(); __sym_cover("scaled end"); }
template <class T> static void product() {
    enum { N = 2 + THOROUGH };
    int m = num("rows", 1, N), n = num("cols", 1, N), k = num("inner", 1, N); T a[9 + G], b[9 + G], c[9 + G], p[9 + G], q[9 + G], w[9 + G];
    ints(a, m * k + G, 9); ints(b, k * n + G, 9); ints(c, m * n + G, 9); memcpy(p, a, sizeof p); memcpy(q, b, sizeof q); memcpy(w, c, sizeof w);
    T al = (T)num("alpha", -1, 2), be = (T)num("beta", -1, 2);
    blas::gemm<T>(m, n, k, al, a, b, be, c);
    bool ok = true;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { T s = 0; for (int l = 0; l < k; l++) s += p[i * k + l] * q[l * n + j]; ok &= c[i * n + j] == al * s + be * w[i * n + j]; }
    CHECK(ok, "the matrix product"); CHECK(alike(a, p, m * k + G) && alike(b, q, k * n + G) && alike(c + m * n, w + m * n, G), "nothing else");
}
HARNESS(product_float) { product<float>(); __sym_cover("product end"); }
HARNESS(product_double) { product<double>(); __sym_cover("product end"); }
// what is left on the stack by others
static __attribute__((noinline)) long scribble() { volatile long x[600]; for (int i = 0; i < 600; i++) x[i] = -1; return x[599]; }
template <class T> static bool near(T a, T b) { if (__sym_is_native()) { T d = a - b; return d < (T)0.01 && d > (T)-0.01; } return a == b; }
template <class T> static void eigen() {
    static const int P[][4] = {{1, 0, 0, 1}, {1, 1, 0, 1}, {1, 0, 1, 1}, {2, 1, 1, 1}, {0, 1, -1, 0}, {3, 2, 1, 1}};
    __stub_eigen_reset();
    int n = num("order", 1, 2); bool left = num("left", 0, 1), right = num("right", 0, 1);
    long l[2] = {__sym_range("value", -9, 9), n > 1 ? __sym_range("value", -9, 9) : 0}, z[2] = {0, 0}, c[3] = {1, -l[0], 0}; T a[4 + G], A[4];
    if (n == 1) a[0] = A[0] = (T)l[0];
    else {
        __sym_assume(l[0] != l[1]);
        const int* p = P[num("basis", 0, 5)]; // determinant 1
        long m[4] = {p[0] * l[0] * p[3] - p[1] * l[1] * p[2], -p[0] * l[0] * p[1] + p[1] * l[1] * p[0], p[2] * l[0] * p[3] - p[3] * l[1] * p[2], -p[2] * l[0] * p[1] + p[3] * l[1] * p[0]};
        for (int i = 0; i < 4; i++) a[i] = A[i] = (T)m[i];
        c[1] = -(l[0] + l[1]); c[2] = l[0] * l[1];
    }
    for (int i = n * n; i < 4 + G; i++) a[i] = (T)55;
    __stub_eigen_add(n, c, l, z);
    T wr[2 + G], wi[2 + G], vl[4 + G], vr[4 + G]; for (int i = 0; i < 4 + G; i++) vl[i] = vr[i] = (T)55; for (int i = 0; i < 2 + G; i++) wr[i] = wi[i] = (T)55;
    scribble();
    long info = lapack::geev<T>(n, a, wr, wi, left ? vl : (T*)0, right ? vr : (T*)0);
    CHECK(info == 0, "success");
    bool ok = true; for (int k = 0; k < n; k++) { ok &= near(wr[k], (T)l[0]) || (n > 1 && near(wr[k], (T)l[1])); ok &= near(wi[k], (T)0); }
    if (n > 1) ok &= near(wr[0] + wr[1], (T)(l[0] + l[1]));
    CHECK(ok, "the eigenvalues");
    ok = true; for (int k = 0; k < n && right; k++) { T* v = vr + k * n; bool any = false; for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) s += A[i * n + j] * v[j]; ok &= near(s, wr[k] * v[i]); any |= !near(v[i], (T)0); } ok &= any; }
    CHECK(ok, "each row a right eigenvector");
    ok = true; for (int k = 0; k < n && left; k++) { T* v = vl + k * n; bool any = false; for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) s += A[j * n + i] * v[j]; ok &= near(s, wr[k] * v[i]); any |= !near(v[i], (T)0); } ok &= any; }
    CHECK(ok, "each row a left eigenvector");
    ok = true; for (int i = 0; i < 4 + G; i++) { if (i >= n * n) ok &= a[i] == (T)55; if (!left || i >= n * n) ok &= vl[i] == (T)55; if (!right || i >= n * n) ok &= vr[i] == (T)55; }
    for (int i = n; i < 2 + G; i++) ok &= (wr[i] == (T)55) & (wi[i] == (T)55);
    CHECK(ok, "nothing else");
}
HARNESS(eigen_float) { eigen<float>(); __sym_cover("eigen end"); }
HARNESS(eigen_double) { eigen<double>(); __sym_cover("eigen end"); }
HARNESS(status) {
    __stub_eigen_reset();
    long l[1] = {3}, z[1] = {0}, c[2] = {1, -3}; __stub_eigen_add(1, c, l, z);
    int want = (int)__sym_range("status", -20, 20); __stub_lapack_fail(want);
    long info; float a[1] = {3}, r[1], i[1]; double b[1] = {3}, s[1], j[1];
    scribble();
    switch (num("routine", 0, 2)) { case 0: info = lapack::geev<float>(1, a, r, i); break; case 1: info = lapack::geev<double>(1, b, s, j); break; default: info = lapack::gees<float>(1, a, r, i); }
    CHECK(info == want, "the status is that of the library");
    __sym_cover("status end");
}

// longer operands: given whole numbers, one of them symbolic
template <class T> static void fill_(T* x, int n, int m) { for (int i = 0; i < n; i++) x[i] = val<T>((i * 5 + m) % 7 - 3, (i * 3 + m) % 5 - 2); }
template <class T> static void many() {
    enum { M = 36 }; static const int N[] = {7, 8, 9, 16, 17, 33};
    int n = N[num("n", 0, 5)], at = n - 1 - num("place", 0, 2) * (n / 3); T x[M], y[M], p[M], q[M];
    fill_(x, M, 1); fill_(y, M, 2); ints(x + at, 1, 50); memcpy((void*)p, (void*)x, sizeof p); memcpy((void*)q, (void*)y, sizeof q);
    switch (num("routine", 0, 5)) {
    case 0: blas::copy<T>(n, x, y); CHECK(alike(y, p, n), "copied"); CHECK(alike(x, p, M) && alike(y + n, q + n, M - n), "nothing else"); break;
    case 1: blas::swap<T>(n, x, y); CHECK(alike(y, p, n) && alike(x, q, n), "exchanged"); CHECK(alike(x + n, p + n, M - n) && alike(y + n, q + n, M - n), "nothing else"); break;
    case 2: {
        T al = val<T>(2, -1); long r = 2, s = cplx_(Ty<T>::t) ? -1 : 0; blas::axpy<T>(n, al, x, y); bool ok = true;
        for (int i = 0; i < n; i++) ok &= y[i] == val<T>(re_(q[i]) + r * re_(p[i]) - s * im_(p[i]), im_(q[i]) + r * im_(p[i]) + s * re_(p[i]));
        CHECK(ok, "a multiple added"); CHECK(alike(x, p, M) && alike(y + n, q + n, M - n), "nothing else"); break; }
    case 3: {
        T d = blas::dot<T>(n, x, y); long a = 0, b = 0;
        for (int i = 0; i < n; i++) { a += re_(p[i]) * re_(q[i]) + im_(p[i]) * im_(q[i]); b += re_(p[i]) * im_(q[i]) - im_(p[i]) * re_(q[i]); }
        CHECK(d == val<T>(a, b), "the product of the conjugate of the first and the second"); break; }
    case 4: {
        long k = blas::iamax<T>(n, x); CHECK(k >= 0 && k < n, "one of them"); if (k < 0 || k >= n) break; bool ok = true; long m = 0;
        for (int i = 0; i < n; i++) if (i == k) m = mag(re_(p[i])) + mag(im_(p[i]));
        for (int i = 0; i < n; i++) { long w = mag(re_(p[i])) + mag(im_(p[i])); ok &= w <= m; if (i < k) ok &= w < m; }
        CHECK(ok, "the first of the largest"); break; }
    case 5: {
        enum { R = 4, K = 5, C = 3 }; T c[R * C + G], w[R * C + G]; fill_(c, R * C + G, 3); memcpy((void*)w, (void*)c, sizeof w);
        if (cplx_(Ty<T>::t) || n != 33) break;
        T al = val<T>(2, 0), be = val<T>(num("beta", -1, 1), 0); blas::gemm<T>(R, C, K, al, x + 13, y, be, c); bool ok = true;
        for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { T s = 0; for (int l = 0; l < K; l++) s += p[13 + i * K + l] * q[l * C + j]; ok &= c[i * C + j] == al * s + be * w[i * C + j]; }
        CHECK(ok, "the matrix product"); CHECK(alike(x, p, M) && alike(y, q, M) && alike(c + R * C, w + R * C, G), "nothing else"); break; }
    }
}
HARNESS(many_float) { many<float>(); __sym_cover("many end"); }
HARNESS(many_double) { many<double>(); __sym_cover("many end"); }
HARNESS(many_cfloat) { many<cfloat>(); __sym_cover("many end"); }
HARNESS(many_cdouble) { many<cdouble>(); __sym_cover("many end"); }
