//! time_quick: 150
//! time_thorough: 850
//! bound: arrays of 1 to 4 elements (thorough 5) of char, int, long, float, double and strings of up to 2 bytes, element values unconstrained; matrices up to 2x3 and 2x2x2 for the sort in place; 9, 17, 18 and 130 elements, one of them symbolic, in three patterns; searches over every element type; 1 to 4 roots that are whole numbers from 1 to 9
//! max_instr: 40000000
//! assume: no NaN
#include "mathops.h"

enum { N = THOROUGH ? 5 : 4 };
static bool nan_(const Elem& e) { if (e.t == TYPE_FLOAT) { float f = f_of(e.a); return f != f; } if (e.t == TYPE_DOUBLE) { double f = d_of(e.a); return f != f; } return false; }
static bool lt_(const Elem& x, const Elem& y) {
    if (x.t == TYPE_FLOAT) return f_of(x.a) < f_of(y.a);
    if (x.t == TYPE_DOUBLE) return d_of(x.a) < d_of(y.a);
    return (long)x.a < (long)y.a;
}
static Elem esym(int t) { Elem e = elem_sym(t, "elem"); __sym_assume(!nan_(e)); return e; }
// r[0..n) is x[0..n) in ascending order: ordered, and each value as often
static void ordered(const Elem* r, const Elem* x, int n) {
    bool ok = true;
    for (int i = 0; i + 1 < n; i++) ok &= !lt_(r[i + 1], r[i]);
    CHECK(ok, "ascending order");
    ok = true;
    for (int i = 0; i < n; i++) {
        int a = 0, b = 0;
        for (int k = 0; k < n; k++) { a += num_eq(r[k], x[i]); b += num_eq(x[k], x[i]); }
        ok &= a == b;
    }
    CHECK(ok, "the same elements");
}
static void sorts(int t) {
    int n = num("n", 1, N), vw = num("view", 0, 1);
    Arr a; build(a, t, shape(n), 1, vw, [&](int) { return esym(t); });
    var r = a.v.sort();
    CHECK(r.size() == n, "as many elements");
    Elem q[N]; for (int i = 0; i < n; i++) { var x = r.at(i); CHECK((int)x.atype() == t, "elements of the same type"); q[i] = elem_of(x, t); }
    ordered(q, a.e.data() + a.off, n);
    a.check("the original is left alone");
    r.push(elem_var(elem_num(t, 3)));
    a.check("the result is independent of the original");
    __sym_cover("sorts end");
}
HARNESS(sort_char) { sorts(TYPE_CHAR); }
HARNESS(sort_int) { sorts(TYPE_INT); }
HARNESS(sort_long) { sorts(TYPE_LONG); }
HARNESS(sort_float) { sorts(TYPE_FLOAT); }
HARNESS(sort_double) { sorts(TYPE_DOUBLE); }
// more elements, given ones around a symbolic one
static Elem near_(int t, int n) { Elem e = esym(t); int c = n / 2; __sym_assume((long)e.a >= c && (long)e.a <= c + 1); return e; }
static void larger_sort(int t, bool in, bool huge = false) {
    static const int S[] = {9, 17, 18, 130}; int n = S[huge ? 3 : num("size", 0, 2)], vw = huge ? 0 : num("view", 0, 1), at = huge ? 0 : num("at", 0, 2), dir = num("pattern", 0, 2); at = huge ? n / 3 + at : at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
    Arr a; build(a, t, shape(n), 1, vw, [&](int i) { i -= vw; return i == at ? (huge ? near_(t, n) : esym(t)) : elem_num(t, dir == 0 ? n - i : dir == 1 ? i / 2 : i * 7 % 11); });
    static Elem q[310];
    if (in) { libube::sort(a.v, a.v); CHECK(a.v.size() == n, "as many elements"); for (int i = 0; i < n; i++) q[i] = raw(a.base, t, a.off + i); for (int i = 0; i < a.off; i++) CHECK(elem_eq(raw(a.base, t, i), a.e[i]) && elem_eq(raw(a.base, t, a.total - 1 - i), a.e[a.total - 1 - i]), "outside the view"); }
    else { var r = a.v.sort(); CHECK(r.size() == n, "as many elements"); for (int i = 0; i < n; i++) { var x = r.at(i); CHECK((int)x.atype() == t, "elements of the same type"); q[i] = elem_of(x, t); } a.check("the original is left alone"); }
    // the given ones in order, the symbolic one where it belongs
    static Elem w[310]; int m = 0;
    for (int i = 0; i < n; i++) if (i != at) { int k = m++; while (k > 0 && lt_(a.at(i), w[k - 1])) { w[k] = w[k - 1]; k--; } w[k] = a.at(i); }
    int k = 0; while (k < m && lt_(w[k], a.at(at))) k++;
    bool ok = true;
    for (int i = 0; i < n; i++) ok &= num_eq(q[i], i < k ? w[i] : i == k ? a.at(at) : w[i - 1]);
    CHECK(ok, "the same elements in ascending order");
    __sym_cover("larger end");
}
HARNESS(larger_int) { larger_sort(TYPE_INT, num("in place", 0, 1)); }
HARNESS(larger_double) { larger_sort(TYPE_DOUBLE, num("in place", 0, 1)); }
HARNESS(huge_int) { larger_sort(TYPE_INT, num("in place", 0, 1), true); }
HARNESS(sort_strings) {
    int n = num("n", 1, 3); char s[3][3]; int l[3]; var v;
    v.push("x"); v.pop();
    for (int i = 0; i < n; i++) { l[i] = i ? 1 : num("len", 0, 2); for (int k = 0; k < l[i]; k++) s[i][k] = (char)__sym_range("byte", 1, 127); s[i][l[i]] = 0; v.push(var(l[i], s[i])); }
    var r = v.sort();
    CHECK(r.size() == n, "as many strings");
    for (int i = 0; i + 1 < n; i++) CHECK(strcmp(r.at(i).str(), r.at(i + 1).str()) <= 0, "strings in order");
    for (int i = 0; i < n; i++) {
        int a = 0, b = 0;
        for (int k = 0; k < n; k++) { a += str_eq(r.at(k), s[i], l[i]); b += l[k] == l[i] && !memcmp(s[k], s[i], l[i]); }
        CHECK(a == b, "the same strings");
        str_check(v.at(i), s[i], l[i], "the original is left alone");
    }
    __sym_cover("strings end");
}
// in place: each row
static void rows(int t, Shape s) {
    int vw = s.rank > 1 ? 1 : num("view", 0, 1);
    Arr a; build(a, t, s, 1, vw, [&](int) { return esym(t); });
    libube::sort(a.v, a.v);
    int w = s.d[s.rank - 1];
    for (int k = 0; k < a.n / w; k++) {
        Elem q[4];
        for (int i = 0; i < w; i++) q[i] = raw(a.base, t, a.off + k * w + i);
        ordered(q, &a.at(k * w), w);
    }
    for (int i = 0; i < a.off; i++) CHECK(elem_eq(raw(a.base, t, i), a.e[i]) && elem_eq(raw(a.base, t, a.total - 1 - i), a.e[a.total - 1 - i]), "outside the view");
    CHECK(a.v.dim() == s.rank && a.v.size() == a.n && (int)a.v.atype() == t, "shape and type");
    __sym_cover("rows end");
}
HARNESS(inplace_vector) { int t = num("type", TYPE_CHAR, TYPE_DOUBLE), n = num("n", 1, 3); rows(t, shape(n)); }
HARNESS(inplace_matrix) { int t = num("type", TYPE_CHAR, TYPE_DOUBLE), n = num("n", 1, 2); rows(t, shape(2, n)); }
HARNESS(inplace_matrix3) { rows(TYPE_INT, shape(2, 3)); }
HARNESS(inplace_cube) { rows(TYPE_INT, shape(2, 2, 2)); }
HARNESS_T(inplace_long) { rows(TYPE_LONG, shape(4)); }
// anything else is refused
HARNESS(inplace_refused) {
    int t = num("type", TYPE_CFLOAT, TYPE_CDOUBLE);
    Arr a; sym_arr(a, t, shape(2), 0, false);
    CHECK(throws([&] { libube::sort(a.v, a.v); }), "complex numbers have no order");
    a.check("unchanged");
    __sym_cover("refused end");
}
// the first position with an equal value
HARNESS(index) {
    int t = num("type", T_FIRST, T_LAST), n = num("n", 1, 3), vw = num("view", 0, 1);
    Arr a; build(a, t, shape(n), 1, vw, [&](int) { Elem e = elem_sym(t, "elem"); if (cplx_(t)) { float f = f_of(e.a), g = f_of(e.b); double d = d_of(e.a), h = d_of(e.b); __sym_assume(t == TYPE_CFLOAT ? (f == f) & (g == g) : (d == d) & (h == h)); } else __sym_assume(!nan_(e)); return e; });
    Elem k = elem_sym(t, "key");
    int want = -1;
    for (int i = n; i-- > 0;) if (num_eq(a.at(i), k)) want = i;
    ind r = a.v.index(elem_var(k));
    if (want < 0) CHECK(!r, "false when there is none");
    else CHECK((bool)r && (long)r == want, "the first position");
    a.check("searching changes nothing");
    __sym_cover("index end");
}
HARNESS(index_strings) {
    int n = num("n", 0, 3); char s[3]; var v; v.push("x"); v.pop();
    for (int i = 0; i < n; i++) { s[i] = (char)__sym_bits("byte", 8); v.push(var(1, &s[i])); }
    char k = (char)__sym_bits("key", 8); int two = num("two", 0, 1); char kk[3] = {k, 'z', 0};
    int want = -1;
    if (!two) for (int i = n; i-- > 0;) if (s[i] == k) want = i;
    ind r = v.index(var(1 + two, kk));
    if (want < 0) CHECK(!r, "false when there is none");
    else CHECK((bool)r && (long)r == want, "the first position");
    CHECK(v.size() == n, "searching changes nothing");
    __sym_cover("index strings end");
}
HARNESS(index_nothing) {
    var v;
    CHECK(!v.index(elem_var(elem_sym(num("type", T_FIRST, T_LAST), "key"))), "nothing is found in an undefined value");
    CHECK(!v.defined(), "searching changes nothing");
    __sym_cover("index nothing end");
}
// coefficients of the monic polynomial
static void poly_(int t, bool sy) {
    int n = num("order", 1, sy ? 3 : 4), vw = num("view", 0, 1);
    Arr a; build(a, t, shape(n), 1, vw, [&](int i) { long x = sy ? __sym_range("root", 1, 9) : i + 2, y = cplx_(t) ? (sy && i == 0 ? __sym_range("imag", 1, 9) : 1 - i) : 0; return elem_int(t, x, y); });
    long re[6] = {1}, im[6] = {0};
    for (int i = 0; i < n; i++) {
        long a1, b1; Elem& e = a.at(i);
        switch (t) {
        case TYPE_FLOAT: a1 = (long)f_of(e.a); b1 = 0; break;
        case TYPE_DOUBLE: a1 = (long)d_of(e.a); b1 = 0; break;
        case TYPE_CFLOAT: a1 = (long)f_of(e.a); b1 = (long)f_of(e.b); break;
        default: a1 = (long)d_of(e.a); b1 = (long)d_of(e.b); break;
        }
        re[i + 1] = im[i + 1] = 0;
        for (int j = i + 1; j > 0; j--) { long x = re[j - 1] * a1 - im[j - 1] * b1, y = re[j - 1] * b1 + im[j - 1] * a1; re[j] -= x; im[j] -= y; }
    }
    var r = poly(a.v);
    CHECK((int)r.atype() == t && r.size() == n + 1, "one coefficient more than there are roots, of the same type");
    for (int i = 0; i <= n; i++) CHECK(num_eq(raw(r, t, i), elem_int(t, re[i], im[i])), "coefficient");
    a.check("the roots are left alone");
    __sym_cover("poly end");
}
HARNESS(poly_real) { poly_(num("type", TYPE_FLOAT, TYPE_DOUBLE), true); }
HARNESS(poly_complex) { poly_(num("type", TYPE_CFLOAT, TYPE_CDOUBLE), false); }
HARNESS(poly_complex_sym) { poly_(num("type", TYPE_CFLOAT, TYPE_CDOUBLE), true); }
// a row at a time
HARNESS(poly_rows) {
    int t = num("type", TYPE_FLOAT, TYPE_DOUBLE);
    Arr a; int_arr(a, t, shape(2, 2), 1, true, 1, 9);
    var r = poly(a.v);
    is_arr(r, t, shape(2, 3), [&](int i) { long x = t == TYPE_FLOAT ? (long)f_of(a.at(i / 3 * 2).a) : (long)d_of(a.at(i / 3 * 2).a), y = t == TYPE_FLOAT ? (long)f_of(a.at(i / 3 * 2 + 1).a) : (long)d_of(a.at(i / 3 * 2 + 1).a); return elem_int(t, i % 3 == 0 ? 1 : i % 3 == 1 ? -x - y : x * y); }, false, "coefficients of each row");
    a.check("the roots are left alone");
    __sym_cover("poly rows end");
}
