//! time_quick: 100
//! time_thorough: 850
//! bound: arrays and views of every numeric type, of rank 1 to 3 with sides of 1 to 3 (thorough 4), larger ones of 9 to 24 elements and rank up to 4, anywhere inside their storage, alone, in an array, as a value of a map and two levels deep; elements whole numbers of up to 3 digits, of either sign; complex numbers, single characters
#include "mathops.h"
#include <lube/data.h>
#include <iostream>

struct Cap : public std::streambuf {
    char s[1200]; int n; Cap() : n(0) {}
    int overflow(int c) { if (c != EOF && n < 1199) s[n++] = (char)c; return c; }
    std::streamsize xsputn(const char* p, std::streamsize k) { for (std::streamsize i = 0; i < k; i++) overflow((unsigned char)p[i]); return k; }
};
// the text expected
struct Text {
    char s[1200]; int n; Text() : n(0) {}
    void c(char x) { if (n < 1199) s[n++] = x; }
    void t(const char* x) { while (*x) c(*x++); }
    void sp(int k) { while (k-- > 0) c(' '); }
    void i(long v) { if (v < 0) { c('-'); v = -v; } char b[20]; int k = 0; do b[k++] = (char)('0' + v % 10); while (v /= 10); while (k) c(b[--k]); }
};
static void print(Cap& c, var v) { std::ostream o(&c); o << v; }
static bool eq(const Cap& c, const Text& t) { return c.n == t.n && !memcmp(c.s, t.s, t.n); }
static const long VAL[] = {0, 7, -3, 12, 100, -45, 1, -999, 9, 10, 99, 640, -1, 2, 3, 4};
static int rot;
static long re(int i) { return VAL[(i + rot) % 16]; }
static long im(int i) { return VAL[(i * 3 + 2 + rot) % 16]; }
static void elem(Text& x, int t, int i) {
    if (cplx_(t)) { x.c('('); x.i(re(i)); x.c(','); x.i(im(i)); x.c(')'); }
    else x.i(re(i));
}
static int type() { static const int T[] = {TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE, TYPE_CFLOAT, TYPE_CDOUBLE}; return T[num("type", 0, 5)]; }
// a view as printed at a level of indentation; the first element is number `off` of the storage
static void view_text(Text& x, int t, Shape s, int off, int ind) {
    if (s.rank == 1) { x.c('['); for (int i = 0; i < s.d[0]; i++) { if (i) x.t(", "); elem(x, t, off + i); } x.c(']'); return; }
    int mats = 1, rows = s.d[0], cols = s.d[1];
    if (s.rank == 4) { mats = s.d[0] * s.d[1]; rows = s.d[2]; cols = s.d[3]; for (int i = 0; i < 4; i++) { if (i) x.c('x'); x.i(s.d[i]); } x.t(" tensor:\n"); }
    if (s.rank == 3) { mats = s.d[0]; rows = s.d[1]; cols = s.d[2]; x.i(mats); x.c('x'); x.i(rows); x.c('x'); x.i(cols); x.t(" tensor:\n"); }
    for (int m = 0; m < mats; m++) {
        if (m) x.c('\n');
        x.t("[\n");
        for (int r = 0; r < rows; r++) {
            x.sp(ind + 2);
            for (int c = 0; c < cols; c++) { if (c) x.c(' '); elem(x, t, off + (m * rows + r) * cols + c); if (r != rows - 1 || c != cols - 1) x.c(','); }
            x.c('\n');
        }
        x.sp(ind); x.c(']');
    }
}
static void array_text(Text& x, int t, int n, int ind) {
    if (t != TYPE_CDOUBLE) { x.c('['); for (int i = 0; i < n; i++) { if (i) x.t(", "); elem(x, t, i); } x.c(']'); return; }
    x.t("[\n");
    for (int i = 0; i < n; i++) { x.sp(ind + 2); elem(x, t, i); if (i < n - 1) x.c(','); x.c('\n'); }
    x.sp(ind); x.c(']');
}
// v alone, in an array, in a map, or in an array in a map
template <class F> static void where(var v, F body) {
    int w = num("where", 0, 3);
    Text x; Cap c;
    if (w == 0) { print(c, v); body(x, 0); }
    else if (w == 1) { var a; a.array(); a[0] = 5; a.push(v); a.push("s"); print(c, a); x.t("[\n  5,\n  "); body(x, 2); x.t(",\n  \"s\"\n]"); }
    else {
        var m; m[var("k")] = v; m[var("z")] = 1; Text y;
        if (w == 2) { print(c, m); x.t("{\n  \"k\": "); body(x, 2); x.t(",\n  \"z\": 1\n}"); }
        else { var a; a.array(); a[0] = m; a.push("s"); print(c, a); x.t("[\n  {\n    \"k\": "); body(x, 4); x.t(",\n    \"z\": 1\n  },\n  \"s\"\n]"); }
    }
    CHECK(eq(c, x), "the text of the elements in their order");
}
static Shape some(int rank, int side) {
    int a = num("side", 1, side), b = rank > 1 ? num("side", 1, side) : 1, c = rank > 2 ? num("side", 1, side) : 1;
    return rank == 1 ? shape(a) : rank == 2 ? shape(a, b) : shape(a, b, c);
}
HARNESS(views) {
    { error warm("x"); }
    long mk = __sym_leak_mark();
    {
        int t = type(), rank = num("rank", 1, 4); rot = 0;
        Shape s = rank == 4 ? larger(1) : some(rank, rank == 3 && !THOROUGH ? 2 : THOROUGH ? 3 : 3);
        int pad = num("offset", 0, 2);
        Arr a; build(a, t, s, pad, true, [&](int i) { return elem_int(t, re(i), im(i)); });
        where(a.v, [&](Text& x, int ind) { view_text(x, t, s, pad, ind); });
        a.check("printing changes nothing");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("views end");
}
HARNESS(arrays) {
    int t = type(), n = num("n", 1, THOROUGH ? 6 : 5); if (n == (THOROUGH ? 6 : 5)) n = 17; rot = num("values", 0, 3) * 4;
    if (t == TYPE_CDOUBLE) __sym_assume(n > 1); // one is a number
    Arr a; build(a, t, shape(n), 0, false, [&](int i) { return elem_int(t, re(i), im(i)); });
    __sym_assume(n > 1 || a.v.heap());
    where(a.v, [&](Text& x, int ind) { array_text(x, t, n, ind); });
    a.check("printing changes nothing");
    __sym_cover("arrays end");
}
HARNESS(scalars) {
    int t = type(); rot = num("values", 0, 15);
    if (num("char", 0, 1)) {
        char ch = (char)__sym_range("c", 1, 127);
        where(var(ch), [&](Text& x, int) { x.c('\''); x.c(ch); x.c('\''); });
    }
    else {
        var v;
        switch (t) {
        case TYPE_INT: v = (int)re(0); break; case TYPE_LONG: v = re(0); break; case TYPE_FLOAT: v = (float)re(0); break;
        case TYPE_DOUBLE: v = (double)re(0); break; case TYPE_CFLOAT: v = cfloat((float)re(0), (float)im(0)); break;
        default: v = cdouble((double)re(0), (double)im(0));
        }
        where(v, [&](Text& x, int) { elem(x, t, 0); });
    }
    __sym_cover("scalars end");
}
// vectors and matrices are printed as JSON: it reads back as the elements in their order
HARNESS(reread) {
    long x[9]; Shape s = some(2, THOROUGH ? 3 : 2); if (num("vector", 0, 1)) s = shape(s.size());
    int t = num("real", 0, 1) ? TYPE_INT : TYPE_LONG, pad = num("offset", 0, 1);
    for (int i = 0; i < s.size(); i++) x[i] = i == 1 || i == 3 ? __sym_range("elem", -99, 99) : re(i);
    Arr a; build(a, t, s, pad, true, [&](int i) { return elem_int(t, i >= pad && i < pad + s.size() ? x[i - pad] : 77); });
    Cap c; print(c, a.v); c.s[c.n] = 0;
    struct In : public std::streambuf { In(char* b, int n) { setg(b, b, b + n); } } in(c.s, c.n);
    std::istream is(&in); var v; is >> v;
    CHECK(v.defined() && v.size() == s.size(), "as many elements");
    if (v.size() == s.size()) for (int i = 0; i < s.size(); i++) CHECK(v[i].cast<long>() == x[i], "the elements");
    __sym_cover("reread end");
}
