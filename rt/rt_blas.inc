// Reference semantics of the BLAS level 1-3 routines the library calls.
typedef long I_;
static inline float abs1(float x) { return __builtin_fabsf(x); }
static inline double abs1(double x) { return __builtin_fabs(x); }
template <class T> static inline T abs1(const CX<T>& z) { return abs1(z.re) + abs1(z.im); }
template <class T> static inline CX<T> operator+(const CX<T>& a, const CX<T>& b) { return {a.re + b.re, a.im + b.im}; }
template <class T> static inline CX<T> operator*(const CX<T>& a, const CX<T>& b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
template <class T> static inline CX<T> conj1(const CX<T>& a) { return {a.re, -a.im}; }
static inline I_ st(I_ n, I_ inc) { return inc < 0 ? (1 - n) * inc : 0; }
template <class T> static void swap_(I_ n, T* x, I_ ix, T* y, I_ iy) { for (I_ i = 0, a = st(n, ix), b = st(n, iy); i < n; i++, a += ix, b += iy) { T t = x[a]; x[a] = y[b]; y[b] = t; } }
template <class T> static void copy_(I_ n, T* x, I_ ix, T* y, I_ iy) { for (I_ i = 0, a = st(n, ix), b = st(n, iy); i < n; i++, a += ix, b += iy) y[b] = x[a]; }
template <class T> static void axpy_(I_ n, T al, T* x, I_ ix, T* y, I_ iy) { for (I_ i = 0, a = st(n, ix), b = st(n, iy); i < n; i++, a += ix, b += iy) y[b] = y[b] + al * x[a]; }
template <class T> static void scal_(I_ n, T al, T* x, I_ ix) { if (ix > 0) for (I_ i = 0; i < n; i++) x[i * ix] = al * x[i * ix]; }
template <class T> static T dot_(I_ n, T* x, I_ ix, T* y, I_ iy) { T r = 0; for (I_ i = 0, a = st(n, ix), b = st(n, iy); i < n; i++, a += ix, b += iy) r = r + x[a] * y[b]; return r; }
template <class T> static CX<T> dotc_(I_ n, CX<T>* x, I_ ix, CX<T>* y, I_ iy) { CX<T> r = {0, 0}; for (I_ i = 0, a = st(n, ix), b = st(n, iy); i < n; i++, a += ix, b += iy) r = r + conj1(x[a]) * y[b]; return r; }
template <class T> static I_ iamax_(I_ n, T* x, I_ ix) { if (n < 1 || ix <= 0) return 0; I_ k = 1; auto m = abs1(x[0]); for (I_ i = 1; i < n; i++) { auto v = abs1(x[i * ix]); if (v > m) { m = v; k = i + 1; } } return k; }
template <class T> static T asum_(I_ n, T* x, I_ ix) { T r = 0; if (ix > 0) for (I_ i = 0; i < n; i++) r = r + abs1(x[i * ix]); return r; }
template <class T> static void tbmvLT_(I_ n, I_ k, T* a, I_ lda, T* x, I_ ix) {
    for (I_ j = 0; j < n; j++) { T t = x[j * ix] * a[j * lda]; for (I_ i = j + 1; i < n && i <= j + k; i++) t = t + a[j * lda + (i - j)] * x[i * ix]; x[j * ix] = t; }
}
template <class T> static void sbmvL_(I_ n, I_ k, T al, T* a, I_ lda, T* x, I_ ix, T be, T* y, I_ iy) {
    for (I_ j = 0; j < n; j++) y[j * iy] = be == 0 ? T(0) : be * y[j * iy];
    for (I_ j = 0; j < n; j++) {
        T t1 = al * x[j * ix], t2 = 0;
        y[j * iy] = y[j * iy] + t1 * a[j * lda];
        for (I_ i = j + 1; i < n && i <= j + k; i++) { y[i * iy] = y[i * iy] + t1 * a[j * lda + i - j]; t2 = t2 + a[j * lda + i - j] * x[i * ix]; }
        if (k > 0) y[j * iy] = y[j * iy] + al * t2;
    }
}
template <class T> static void gemmNN_(I_ m, I_ n, I_ k, T al, T* a, I_ lda, T* b, I_ ldb, T be, T* c, I_ ldc) {
    for (I_ j = 0; j < n; j++)
        for (I_ i = 0; i < m; i++) {
            T s = 0;
            for (I_ l = 0; l < k; l++) s = s + a[i + l * lda] * b[l + j * ldb];
            c[i + j * ldc] = be == 0 ? al * s : al * s + be * c[i + j * ldc];
        }
}
extern "C" {
#define L1(p, T) \
    int p##swap_(I_* n, T* x, I_* ix, T* y, I_* iy) { swap_<T>(*n, x, *ix, y, *iy); return 0; } \
    int p##copy_(I_* n, T* x, I_* ix, T* y, I_* iy) { copy_<T>(*n, x, *ix, y, *iy); return 0; } \
    int p##axpy_(I_* n, T* al, T* x, I_* ix, T* y, I_* iy) { axpy_<T>(*n, *al, x, *ix, y, *iy); return 0; } \
    int p##scal_(I_* n, T* al, T* x, I_* ix) { scal_<T>(*n, *al, x, *ix); return 0; } \
    I_ i##p##amax_(I_* n, T* x, I_* ix) { return iamax_<T>(*n, x, *ix); }
L1(s, float) L1(d, double) L1(c, CX<float>) L1(z, CX<double>)
float sdot_(I_* n, float* x, I_* ix, float* y, I_* iy) { return dot_<float>(*n, x, *ix, y, *iy); }
double ddot_(I_* n, double* x, I_* ix, double* y, I_* iy) { return dot_<double>(*n, x, *ix, y, *iy); }
void cdotc_(CX<float>* r, I_* n, CX<float>* x, I_* ix, CX<float>* y, I_* iy) { *r = dotc_<float>(*n, x, *ix, y, *iy); }
void zdotc_(CX<double>* r, I_* n, CX<double>* x, I_* ix, CX<double>* y, I_* iy) { *r = dotc_<double>(*n, x, *ix, y, *iy); }
float sasum_(I_* n, float* x, I_* ix) { return asum_<float>(*n, x, *ix); }
double dasum_(I_* n, double* x, I_* ix) { return asum_<double>(*n, x, *ix); }
#define L2(p, T) \
    int p##tbmv_(char* u, char* t, char* d, I_* n, I_* k, T* a, I_* lda, T* x, I_* ix) { if (*u != 'L' || *t != 'T' || *d != 'N') __sym_unmodelled("tbmv variant"); tbmvLT_<T>(*n, *k, a, *lda, x, *ix); return 0; } \
    int p##sbmv_(char* u, I_* n, I_* k, T* al, T* a, I_* lda, T* x, I_* ix, T* be, T* y, I_* iy) { if (*u != 'L') __sym_unmodelled("sbmv variant"); sbmvL_<T>(*n, *k, *al, a, *lda, x, *ix, *be, y, *iy); return 0; } \
    int p##gemm_(char* ta, char* tb, I_* m, I_* n, I_* k, T* al, T* a, I_* lda, T* b, I_* ldb, T* be, T* c, I_* ldc) { if (*ta != 'N' || *tb != 'N') __sym_unmodelled("gemm variant"); gemmNN_<T>(*m, *n, *k, *al, a, *lda, b, *ldb, *be, c, *ldc); return 0; }
L2(s, float) L2(d, double)
struct Eigen { int n; long c[5], re[4], im[4]; };
static Eigen eig[4]; static int neig; static int lapack_info;
void __stub_eigen_reset(void) { neig = 0; lapack_info = 0; }
void __stub_lapack_fail(int info) { lapack_info = info; }
void __stub_eigen_add(int n, const long* c, const long* re, const long* im) {
    Eigen& e = eig[neig++]; e.n = n;
    for (int i = 0; i <= n; i++) e.c[i] = c[i];
    for (int i = 0; i < n; i++) { e.re[i] = re[i]; e.im[i] = im[i]; }
}
// sum of the principal minors of order k
static long det_(const long* a, int n, const int* r, const int* c, int k) {
    if (k == 0) return 1;
    long s = 0; int d[4];
    for (int i = 0; i < k; i++) {
        int w = 0; for (int j = 0; j < k; j++) if (j != i) d[w++] = c[j];
        long m = a[r[0] * n + c[i]]; if (!__sym_is_symbolic(m) && m == 0) continue;
        long t = m * det_(a, n, r + 1, d, k - 1);
        if (i & 1) s -= t; else s += t;
    }
    return s;
}
static long minors_(const long* a, int n, int k, int from, int* set, int have) {
    if (have == k) return det_(a, n, set, set, k);
    long s = 0;
    for (int i = from; i < n; i++) { set[have] = i; s += minors_(a, n, k, i + 1, set, have + 1); }
    return s;
}
}
// eigenvector of the matrix of order 1 or 2 with these elements
static void vector_(long a, long b, long c, long d, long l, long* v) {
    if (b != 0) { v[0] = b; v[1] = l - a; }
    else if (c != 0) { v[0] = l - d; v[1] = c; }
    else { v[0] = l == a; v[1] = l != a; }
}
template <class T> static void vectors_(int n, const long* m, bool right, const Eigen& e, T* v, int ldv) {
    if (n > 2 || ldv < n) __sym_unmodelled("eigenvectors of this order");
    for (int k = 0; k < n; k++) {
        long x[2] = {1, 0};
        if (e.im[k] != 0) __sym_unmodelled("complex eigenvectors");
        if (n == 2) { if (right) vector_(m[0], m[2], m[1], m[3], e.re[k], x); else vector_(m[0], m[1], m[2], m[3], e.re[k], x); } // m is by columns
        for (int i = 0; i < n; i++) v[k * ldv + i] = (T)x[i];
    }
}
template <class T> static int eigen_(int n, T* a, int lda, T* wr, T* wi, T* vl = 0, int ldvl = 1, T* vr = 0, int ldvr = 1) {
    if (lapack_info) return lapack_info;
    if (n < 0 || n > 4 || lda < n) __sym_unmodelled("eigenvalues of this order");
    long m[16]; bool whole = true;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { T x = a[i * lda + j]; long v = (long)x; m[i * n + j] = v; whole = whole & ((T)v == x); }
    long e[5]; int set[4]; e[0] = 1;
    for (int k = 1; k <= n; k++) { long s = minors_(m, n, k, 0, set, 0); e[k] = k & 1 ? -s : s; }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i * lda + j] = (T)77; // it is overwritten
    for (int q = 0; q < neig; q++) {
        if (eig[q].n != n) continue;
        bool ok = whole;
        for (int k = 1; k <= n; k++) ok = ok & (e[k] == eig[q].c[k]);
        if (!ok) continue;
        for (int i = 0; i < n; i++) { wr[i] = (T)eig[q].re[i]; wi[i] = (T)eig[q].im[i]; }
        if (vl) vectors_<T>(n, m, false, eig[q], vl, ldvl);
        if (vr) vectors_<T>(n, m, true, eig[q], vr, ldvr);
        return 0;
    }
    for (int i = 0; i < n; i++) { wr[i] = (T)123456; wi[i] = (T)0; } // some other matrix: not what was asked for
    return 0;
}
extern "C" {
#define LE(p, T) \
    int p##geev_(char* jl, char* jr, int* n, T* a, int* lda, T* wr, T* wi, T* vl, int* ldvl, T* vr, int* ldvr, T* w, int* lw, int* info) { \
        if ((*jl != 'N' && *jl != 'V') || (*jr != 'N' && *jr != 'V')) __sym_unmodelled("geev variant"); \
        if (*lw < (*jl == 'V' || *jr == 'V' ? 4 : 3) * *n || *lw < 1) { *info = -13; return 0; } \
        for (int i = 0; i < *lw; i++) w[i] = (T)88; \
        *info = eigen_<T>(*n, a, *lda, wr, wi, *jl == 'V' ? vl : 0, *ldvl, *jr == 'V' ? vr : 0, *ldvr); return 0; } \
    int p##gees_(char* jv, char* sort, void*, int* n, T* a, int* lda, int* sdim, T* wr, T* wi, T* vs, int* ldvs, T* w, int* lw, int* bw, int* info) { \
        if (*jv != 'N' || *sort != 'N') __sym_unmodelled("Schur vectors"); \
        if (*lw < 3 * *n || *lw < 1) { *info = -13; return 0; } \
        for (int i = 0; i < *lw; i++) w[i] = (T)88; \
        *sdim = 0; *info = eigen_<T>(*n, a, *lda, wr, wi); return 0; }
LE(s, float) LE(d, double)
// MKL: out-of-place / in-place scaled transposition, row or column major
#define OMAT(name, T) \
    void name(char ord, char tr, size_t rows, size_t cols, T al, const T* a, size_t lda, T* b, size_t ldb) { \
        if (ord != 'r' && ord != 'R') { size_t t = rows; rows = cols; cols = t; } \
        bool T_ = tr == 't' || tr == 'T'; \
        for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) \
            if (T_) b[j * ldb + i] = al * a[i * lda + j]; else b[i * ldb + j] = al * a[i * lda + j]; }
OMAT(MKL_Somatcopy, float) OMAT(MKL_Domatcopy, double)
#define IMAT(name, om, T) \
    void name(char ord, char tr, size_t rows, size_t cols, T al, T* a, size_t lda, size_t ldb) { \
        size_t n = rows * cols; T* t = (T*)__sym_malloc(n * sizeof(T) + 8, 0); \
        if (ord != 'r' && ord != 'R') { size_t q = rows; rows = cols; cols = q; } \
        for (size_t i = 0; i < rows; i++) for (size_t j = 0; j < cols; j++) t[i * cols + j] = a[i * lda + j]; \
        om('r', tr, rows, cols, al, t, cols, a, ldb); __sym_free(t, 0); }
IMAT(MKL_Simatcopy, MKL_Somatcopy, float) IMAT(MKL_Dimatcopy, MKL_Domatcopy, double)
}
