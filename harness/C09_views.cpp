//! time_quick: 120
//! time_thorough: 800
//! bound: underlying arrays of up to 12 elements (thorough 16) of every element type with unconstrained values; views of rank 1 to 3 with shapes and offsets symbolic in -1..4, larger ones of 12 to 20 elements and rank 4; views of views, subviews and moved windows, indices within and outside the shape; extreme shapes and offsets; negative shape indices
#include "listops.h"
#include <limits.h>

static int base(int t, int n, var& v, EList& r) {
    v = elem_var(elem_num(t, 0));
    if (t == TYPE_CDOUBLE) v.resize(0); else { v.array(); v.resize(0); }
    for (int i = 0; i < n; i++) { Elem e = elem_num(t, i); if (t == TYPE_CDOUBLE) v.append(elem_var(e)); else v.push(elem_var(e)); r.insert(i, e); }
    return n;
}
static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static var mk(var& v, int rank, const int* s, int off, int form) {
    if (form == 1) { var sh; for (int i = 0; i < rank; i++) sh.push(s[i]); return v.view(sh, off); }
    if (rank == 1) return v.view({s[0]}, off);
    if (rank == 2) return v.view({s[0], s[1]}, off);
    if (rank == 3) return v.view({s[0], s[1], s[2]}, off);
    return v.view({s[0], s[1], s[2], s[3]}, off);
}
static var at_(var& w, int rank, const int* i) { return rank == 1 ? w(i[0]) : rank == 2 ? w(i[0], i[1]) : rank == 3 ? w(i[0], i[1], i[2]) : w(i[0], i[1], i[2], i[3]); }
static void geometry(var& w, int rank, const int* s, int off) {
    CHECK(w.view(), "a view");
    CHECK(w.dim() == rank, "dimension");
    CHECK(w.offset() == off, "offset");
    int st = 1;
    for (int i = rank - 1; i >= 0; i--) { CHECK(w.shape(i) == s[i], "shape"); CHECK(w.stride(i) == st, "stride"); CHECK(w.shape(i - rank) == s[i], "shape counted from the end"); st *= s[i]; }
    CHECK(w.size() == st, "size");
    var sh = w.shape();
    CHECK(sh.size() == rank && (int)sh.atype() == TYPE_INT, "shape as an array");
    for (int i = 0; i < rank; i++) CHECK(sh.at(i).get<int>() == s[i], "shape as an array");
    CHECK(throws([&] { w.shape(rank); }) && throws([&] { w.stride(rank); }) && throws([&] { w.shape(-rank - 1); }), "no further dimension");
}
// index (inside or outside) against the reference list; writes too
static void access(var& v, EList& r, var& w, int rank, const int* s, int off, int t) {
    int ix[4]; bool in = true; int p = 0, st[4], q = 1;
    for (int i = rank - 1; i >= 0; i--) { st[i] = q; q *= s[i]; }
    for (int i = 0; i < rank; i++) { ix[i] = (int)__sym_range("index", -1, 4); in = in & (ix[i] >= 0) & (ix[i] < s[i]); p += ix[i] * st[i]; }
    if (!in) {
        Elem e = elem_sym(t, "val");
        CHECK(throws([&] { at_(w, rank, ix) = elem_var(e); }), "indices outside the shape are refused");
        same(v, r, t);
        __sym_cover("outside");
        return;
    }
    var x; x = at_(w, rank, ix);
    CHECK(holds(x, r.d[off + p]), "a view reads the element at the row major position");
    Elem e = elem_sym(t, "val");
    at_(w, rank, ix) = elem_var(e);
    r.d[off + p] = e;
    same(v, r, t);
    CHECK(holds(at_(w, rank, ix), e), "a view reads what was written through it");
    CHECK(holds(w.at(p), e), "linear index");
    __sym_cover("inside");
}
static void shapes(int rank, int N, int t, int hi) {
    long mkk = __sym_leak_mark();
    {
        var v; EList r; base(t, N, v, r);
        int s[3], off = (int)__sym_range("offset", -1, 4); long p = 1; bool neg = off < 0;
        for (int i = 0; i < rank; i++) { s[i] = num("shape", -1, hi); neg = neg | (s[i] < 0); p *= s[i]; }
        bool fits = !neg & (off + p <= N);
        int form = num("form", 0, 1);
        var w;
        bool ref = throws([&] { w = mk(v, rank, s, off, form); });
        CHECK(ref == !fits, "shapes and offsets that do not fit are refused, others are not");
        if (ref) { CHECK(!w.defined(), "nothing made"); same(v, r, t); __sym_cover("refused"); return; }
        off = (int)__sym_concretize(off);
        geometry(w, rank, s, off);
        CHECK((int)w.atype() == t, "element type of a view");
        same(v, r, t);
        if (form == 0) access(v, r, w, rank, s, off, t);
        __sym_cover("shapes end");
    }
    __sym_leak_check(mkk, "storage");
}
HARNESS(rank1) { shapes(1, num("n", 1, 4), TYPE_FLOAT, 4); }
HARNESS(rank2) { shapes(2, num("n", 6, 7), TYPE_DOUBLE, 3); }
HARNESS(rank3) { shapes(3, 12, TYPE_INT, THOROUGH ? 3 : 2); }
HARNESS_T(rank3_16) { shapes(3, 16, TYPE_LONG, 4); }
// every element type
HARNESS(types) {
    int t = num("type", T_FIRST, T_LAST), rank = num("rank", 1, 3);
    var v; EList r; base(t, 9, v, r);
    int s[3] = {rank == 1 ? 7 : 2, 2, 2}, off = 1;
    var w = mk(v, rank, s, off, 0);
    geometry(w, rank, s, off);
    for (int i = 0; i < w.size(); i++) CHECK(holds(w.at(i), r.d[off + i]), "linear index");
    access(v, r, w, rank, s, off, t);
}
HARNESS(larger) {
    int t = num("type", T_FIRST, T_LAST), k = num("larger", 0, 4);
    static const int S[5][4] = {{2, 2, 2, 2}, {3, 1, 2, 2}, {4, 5}, {17}, {2, 3, 3}}, R[5] = {4, 4, 2, 1, 3};
    var v; EList r; base(t, 22, v, r);
    int off = num("offset", 0, 3);
    bool ref = false; var w; int n = 1; for (int i = 0; i < R[k]; i++) n *= S[k][i];
    ref = throws([&] { w = mk(v, R[k], S[k], off, num("form", 0, 1)); });
    CHECK(ref == (off + n > 22), "shapes and offsets that do not fit are refused, others are not");
    if (ref) return;
    geometry(w, R[k], S[k], off);
    for (int i = 0; i < w.size(); i++) CHECK(holds(w.at(i), r.d[off + i]), "linear index");
    access(v, r, w, R[k], S[k], off, t);
}
// values of a view of an array of values
HARNESS(values) {
    long mkk = __sym_leak_mark();
    {
        var v; for (int i = 0; i < 6; i++) { if (i & 1) { char c[2] = {(char)('a' + i), 0}; v.push(c); } else v[i] = i; }
        var w = v.view({2, 2}, 1);
        int i = (int)__sym_range("i", -1, 2), j = (int)__sym_range("j", -1, 2);
        bool in = (i >= 0) & (i < 2) & (j >= 0) & (j < 2);
        bool ref = throws([&] { w(i, j) = "new"; });
        CHECK(ref == !in, "indices outside the shape are refused");
        for (int k = 0; k < 6; k++) {
            if (in && k == 1 + 2 * i + j) CHECK(str_eq(v.at(k), "new"), "element written");
            else if (k & 1) { char c[2] = {(char)('a' + k), 0}; CHECK(str_eq(v.at(k), c), "other elements"); }
            else CHECK(v.at(k).get<int>() == k, "other elements");
        }
        __sym_cover("values end");
    }
    __sym_leak_check(mkk, "storage");
}
// views of views
HARNESS(of_view) {
    long mkk = __sym_leak_mark();
    {
        int t = TYPE_FLOAT, N = 12;
        var v; EList r; base(t, N, v, r);
        int s0[2] = {2, 3}, o0 = num("offset0", 0, 2);
        var u = mk(v, 2, s0, o0, 0);
        int rank = num("rank", 1, 2 + THOROUGH), s[3], off = num("offset", 0, 3); int p = 1;
        for (int i = 0; i < rank; i++) { s[i] = num("shape", 0, 3); p *= s[i]; }
        var w;
        bool ref = throws([&] { w = mk(u, rank, s, off, 0); });
        CHECK(ref == (o0 + off + p > N), "a view of a view has to fit the underlying array");
        geometry(u, 2, s0, o0);
        if (!ref) {
            geometry(w, rank, s, o0 + off);
            access(v, r, w, rank, s, o0 + off, t);
            geometry(u, 2, s0, o0);
            u = undefined(); // the view stays valid without the other
            geometry(w, rank, s, o0 + off);
            v = undefined();
            for (int i = 0; i < p; i++) CHECK(holds(w.at(i), r.d[o0 + off + i]), "a view keeps its array");
            w = undefined();
        }
        __sym_cover("of_view end");
    }
    __sym_leak_check(mkk, "storage");
}
// subviews are the last dimensions at an offset
HARNESS(subviews) {
    int t = TYPE_DOUBLE, N = 12;
    var v; EList r; base(t, N, v, r);
    int s[3] = {2, num("rows", 1, 2), 3}, o0 = 0, rank = num("rank", 2, 3);
    int* q = s + 3 - rank;
    int total = 1; for (int i = 0; i < rank; i++) total *= q[i];
    if (total < N) o0 = num("offset0", 0, 1);
    var u = mk(v, rank, q, o0, 0);
    int d = num("dim", 0, rank), off = num("offset", 0, N);
    int sz = 1; for (int i = 0; i < d; i++) sz *= q[rank - 1 - i];
    var w;
    bool ref = throws([&] { w = u.subview(d, off); });
    CHECK(ref == (d < 1 || o0 + off + sz > N), "subviews that do not fit are refused");
    if (!ref) { geometry(w, d, q + rank - d, o0 + off); access(v, r, w, d, q + rank - d, o0 + off, t); }
    geometry(u, rank, q, o0);
    __sym_cover("subviews end");
}
// moving the window
HARNESS(moved) {
    long mkk = __sym_leak_mark();
    {
        int t = TYPE_CFLOAT, N = 10;
        var v; EList r; base(t, N, v, r);
        int rank = num("rank", 1, 3), s[3] = {2, 2, 2}, sz = 1 << rank;
        var w = mk(v, rank, s, 1, 0), h = w, c = v.view({2});
        int off = (int)__sym_range("offset", -3, 12);
        bool ref, adv = num("advance", 0, 1);
        ref = throws([&] { if (adv) w.advance(off - 1); else w.offset(off); });
        bool fits = (off >= 0) & (off + sz <= N);
        CHECK(ref == !fits, "offsets that do not fit are refused");
        int now = ref ? 1 : (int)__sym_concretize(off);
        geometry(w, rank, s, now);
        CHECK(h.offset() == now, "the offset is that of every handle");
        CHECK(c.offset() == 0, "another view does not move");
        for (int i = 0; i < sz; i++) CHECK(holds(w.at(i), r.d[now + i]), "the window shows the elements at the offset");
        if (!ref) access(v, r, w, rank, s, now, t);
        same(v, r, t);
        __sym_cover("moved end");
    }
    __sym_leak_check(mkk, "storage");
}
// extreme numbers
HARNESS(extreme) {
    var v; EList r; base(TYPE_INT, 4, v, r);
    static const int X[] = {0, 1, 2, 4, 5, 46341, 65536, 65537, 0x10001, 0x40000000, INT_MAX, INT_MAX - 1, -1, INT_MIN, -65536};
    int a = X[num("a", 0, 14)], b = X[num("b", 0, 14)], o = X[num("offset", 0, 14)];
    __int128 p = (__int128)a * b;
    bool fits = a >= 0 && b >= 0 && o >= 0 && p + o <= 4;
    var w;
    bool ref = throws([&] { w = v.view({a, b}, o); });
    // a product that is zero as a whole but not on the way is refused or not: it shows nothing
    if (p != 0) CHECK(ref == !fits, "shapes and offsets that do not fit are refused");
    else if (!ref) CHECK(w.size() == 0, "an empty view");
    bool ref3 = throws([&] { w = v.view({a, b, a}, o); });
    if (!ref3) CHECK(a >= 0 && b >= 0 && o >= 0 && ((__int128)a * b * a == 0 || (__int128)a * b * a + o <= 4), "shapes and offsets that do not fit are refused");
    same(v, r, TYPE_INT);
    if (!ref) { // of a view: offsets add up
        var u; bool ru = throws([&] { w = v.view({1}, 1); u = w.view({1}, o); });
        CHECK(ru == !(o >= -1 && o <= 2), "offsets of a view of a view add up");
    }
    __sym_cover("extreme end");
}
// making the array with the view, and any symbolic shape
HARNESS(fresh) {
    long mkk = __sym_leak_mark();
    {
        int t = num("type", T_FIRST, TYPE_CFLOAT), rank = num("rank", 1, 3), s[3] = {num("s0", 0, 2), num("s1", 1, 2), 2}, n = 1;
        for (int i = 0; i < rank; i++) n *= s[i];
        Elem e = elem_sym(t, "val"); var x = elem_var(e), w;
        switch (num("form", 0, 2)) {
        case 0: w = rank == 1 ? view({s[0]}, x) : rank == 2 ? view({s[0], s[1]}, x) : view({s[0], s[1], s[2]}, x); break;
        case 1: { var sh; for (int i = 0; i < rank; i++) sh.push(s[i]); w = view(sh, x); break; }
        case 2: { w = rank == 1 ? var({s[0]}, x) : rank == 2 ? var({s[0], s[1]}, x) : var({s[0], s[1], s[2]}, x);
            for (int i = 0; i < n; i++) CHECK(holds(w.at(i), e), "every element initialised"); }
        }
        geometry(w, rank, s, 0);
        CHECK((int)w.atype() == t, "element type of a new view");
        CHECK(holds(x, e), "the type argument stays");
        __sym_cover("fresh end");
    }
    __sym_leak_check(mkk, "storage");
}
// an array given for the type of the elements is left alone
HARNESS(fresh_of_array) {
    long mkk = __sym_leak_mark();
    {
        int t = num("type", T_FIRST, TYPE_CFLOAT), n = num("n", 1, 3), r = num("rows", 1, 2), c = num("cols", 1, 3), form = num("form", 0, 1); EList l; var x, w;
        base(t, n, x, l);
        if (form) { var sh; sh.push(r); sh.push(c); w = view(sh, x); } else w = view({r, c}, x);
        int s[2] = {r, c}; geometry(w, 2, s, 0); CHECK((int)w.atype() == t, "element type of a new view");
        CHECK(x.size() == n && !x.view() && (int)x.atype() == t, "the array given stays");
        for (int i = 0; i < r * c; i++) w[i] = elem_var(elem_num(t, 77));
        CHECK(x.size() == n, "the array given stays"); for (int i = 0; i < n && i < x.size(); i++) CHECK(holds(x.at(i), l.d[i]), "the array given stays");
        __sym_cover("fresh of array end");
    }
    __sym_leak_check(mkk, "storage");
}
// scalars and undefined values have no views; geometry of plain arrays
HARNESS(plain) {
    var u, s = 3, a; int n = num("n", 1, 3);
    for (int i = 0; i < n; i++) a.push(i);
    if (n == 1) a.array();
    CHECK(throws([&] { u.view({1}); }) && throws([&] { s.view({1}); }), "only arrays have views");
    CHECK(!a.view() && !s.view() && !u.view(), "not views");
    CHECK(a.dim() == 1 && a.shape(0) == n && a.shape(-1) == n && a.stride(0) == 1 && a.offset() == 0, "geometry of an array");
    CHECK(throws([&] { a.shape(1); }) && throws([&] { a.stride(1); }) && throws([&] { a.offset(0); }), "an array has one dimension");
    int i = (int)__sym_range("i", -1, 3);
    bool in = (i >= 0) & (i < n);
    int x = -7;
    bool ref = throws([&] { x = a(i).get<int>(); });
    CHECK(ref == !in, "indices outside the array are refused");
    if (in) CHECK(x == i, "element");
    CHECK(a.size() == n, "length stays");
    __sym_cover("plain end");
}
