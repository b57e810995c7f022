//! time_quick: 150
//! time_thorough: 800
//! bound: pairs and triples of undefined values, scalars of every type, arrays of every element type, strings of any bytes, arrays of values, nested arrays and maps, up to 2 elements each (thorough 3); arrays of 6 to 19 elements that differ in one symbolic element and in length; element values unconstrained
//! assume: no NaN; the modulus of a complex number is an uninterpreted symmetric function that is at least the larger magnitude
#include "common.h"

enum { K_UNDEF, K_SCALAR, K_ARRAY, K_NEST, K_DEEP, K_MAP, K_LAST = K_MAP };
struct Val { int k, t, n; Elem e[3]; };
static bool isnan_(const Elem& e) {
    switch (e.t) {
    case TYPE_FLOAT: { float f = f_of(e.a); return f != f; }
    case TYPE_DOUBLE: { double f = d_of(e.a); return f != f; }
    case TYPE_CFLOAT: { float f = f_of(e.a), g = f_of(e.b); return (f != f) | (g != g); }
    case TYPE_CDOUBLE: { double f = d_of(e.a), g = d_of(e.b); return (f != f) | (g != g); }
    }
    return false;
}
static Elem esym(int t, const char* name) { Elem e = elem_sym(t, name); __sym_assume(!isnan_(e)); return e; }
static Val gen(int k, int t, int n, const char* name) {
    Val v; v.k = k; v.t = t; v.n = k == K_SCALAR ? 1 : k == K_UNDEF ? 0 : n;
    for (int i = 0; i < v.n; i++) v.e[i] = esym(t, name);
    return v;
}
static var make(const Val& v) {
    var r;
    switch (v.k) {
    case K_UNDEF: return r;
    case K_SCALAR: return elem_var(v.e[0]);
    case K_ARRAY:
        if (v.t == TYPE_CDOUBLE) { r = elem_var(elem_num(TYPE_CDOUBLE, 0)); if (v.n) r = elem_var(v.e[0]); else r.resize(0); for (int i = 1; i < v.n; i++) r.append(elem_var(v.e[i])); return r; }
        r = elem_var(elem_num(v.t, 0)); r.array(); r.resize(0);
        for (int i = 0; i < v.n; i++) r.push(elem_var(v.e[i]));
        return r;
    case K_NEST: // an array of values: a string first, so that it stays one
        r.push("s"); for (int i = 0; i < v.n; i++) r.push(elem_var(v.e[i])); return r;
    case K_DEEP: { var s; s.push("t"); for (int i = 0; i < v.n; i++) s.push(elem_var(v.e[i])); r.push("s"); r.push(s); return r; }
    case K_MAP: { const char* key[] = {"a", "b", "c"}; r[undefined()]; for (int i = 0; i < v.n; i++) r[key[i]] = elem_var(v.e[i]); return r; }
    }
    return r;
}
// reference equality and order of elements of one type (order: not for complex)
static bool ref_eq(const Elem& x, const Elem& y) {
    if (x.t != y.t) return false;
    switch (x.t) {
    case TYPE_FLOAT: return f_of(x.a) == f_of(y.a);
    case TYPE_DOUBLE: return d_of(x.a) == d_of(y.a);
    case TYPE_CFLOAT: return (f_of(x.a) == f_of(y.a)) & (f_of(x.b) == f_of(y.b));
    case TYPE_CDOUBLE: return (d_of(x.a) == d_of(y.a)) & (d_of(x.b) == d_of(y.b));
    }
    return x.a == y.a;
}
static bool ref_lt(const Elem& x, const Elem& y) {
    switch (x.t) {
    case TYPE_FLOAT: return f_of(x.a) < f_of(y.a);
    case TYPE_DOUBLE: return d_of(x.a) < d_of(y.a);
    }
    return (long)x.a < (long)y.a;
}
static bool cplx(int t) { return t == TYPE_CFLOAT || t == TYPE_CDOUBLE; }
// what a and b are as values: the type of elements, the kind, the number of elements
static bool comparable(const Val& a, const Val& b) { return a.k == b.k && (a.k == K_UNDEF || a.t == b.t); }
static bool val_eq(const Val& a, const Val& b) {
    if (a.n != b.n) return false;
    bool r = true;
    for (int i = 0; i < a.n; i++) r &= ref_eq(a.e[i], b.e[i]);
    return r;
}
static bool val_lt(const Val& a, const Val& b) {
    int n = a.n < b.n ? a.n : b.n;
    bool lt = a.n < b.n;
    for (int i = n - 1; i >= 0; i--) {
        bool l = ref_lt(a.e[i], b.e[i]);
        if (a.k == K_ARRAY && a.t == TYPE_CHAR) l = (unsigned char)a.e[i].a < (unsigned char)b.e[i].a; // by bytes
        lt = l | (ref_eq(a.e[i], b.e[i]) & lt);
    }
    return lt;
}
static void ops(const var& x, const var& y, bool& lt, bool& eq, bool& gt) {
    lt = x < y; gt = y < x; eq = x == y;
    CHECK(lt + gt + eq == 1, "exactly one of less, equal and greater");
    CHECK((x != y) == !eq, "!= is the negation of ==");
    CHECK((x > y) == gt, "> agrees with <");
    CHECK((x <= y) == (lt | eq), "<= agrees with < and ==");
    CHECK((x >= y) == (gt | eq), ">= agrees with < and ==");
    CHECK((y == x) == eq, "== is symmetric");
}
static void pair_(const Val& a, const Val& b) {
    long mk = __sym_leak_mark();
    {
        var x = make(a), y = make(b);
        bool lt, eq, gt;
        ops(x, y, lt, eq, gt);
        CHECK(x == x && !(x < x) && !(x != x) && x <= x, "a value equals itself");
        { var c = x.copy(); CHECK(c == x && !(c < x) && !(x < c), "a value equals its copy"); }
        if (comparable(a, b)) {
            CHECK(eq == val_eq(a, b), "equal exactly when the elements and lengths are");
            if (!cplx(a.t)) CHECK(lt == val_lt(a, b), "lexicographic order");
            else if (!eq) { // a proper prefix comes first
                int n = a.n < b.n ? a.n : b.n; bool same = true;
                for (int i = 0; i < n; i++) same &= ref_eq(a.e[i], b.e[i]);
                if (same) CHECK(lt == (a.n < b.n), "a proper prefix comes first");
            }
        } else {
            bool one = (a.k == K_SCALAR || b.k == K_SCALAR) && (a.t == TYPE_CDOUBLE || b.t == TYPE_CDOUBLE); // a cdouble is an array of one
            if (!one) CHECK(!eq, "values of different kinds differ");
        }
        __sym_cover("pair end");
    }
    __sym_leak_check(mk, "storage of compared values");
}
static int type_of(const char* n) { return (int)__sym_choice(n, T_FIRST, T_LAST); }
HARNESS(scalars) { int t = type_of("type"); pair_(gen(K_SCALAR, t, 1, "a"), gen(K_SCALAR, t, 1, "b")); }
HARNESS(scalars_mixed) { int t = type_of("type"), u = type_of("type2"); if (t != u) pair_(gen(K_SCALAR, t, 1, "a"), gen(K_SCALAR, u, 1, "b")); }
HARNESS(strings) { int n = (int)__sym_choice("na", 0, 3), m = (int)__sym_choice("nb", 0, 3); pair_(gen(K_ARRAY, TYPE_CHAR, n, "a"), gen(K_ARRAY, TYPE_CHAR, m, "b")); }
static void arrays_(int t) { pair_(gen(K_ARRAY, t, (int)__sym_choice("na", 0, 2 + THOROUGH), "a"), gen(K_ARRAY, t, (int)__sym_choice("nb", 0, 2 + THOROUGH), "b")); }
HARNESS(arrays_int) { arrays_(TYPE_INT); }
HARNESS(arrays_long) { arrays_(TYPE_LONG); }
HARNESS(arrays_float) { arrays_(TYPE_FLOAT); }
HARNESS(arrays_double) { arrays_(TYPE_DOUBLE); }
HARNESS(arrays_cfloat) { arrays_(TYPE_CFLOAT); }
HARNESS(arrays_cdouble) { arrays_(TYPE_CDOUBLE); }
HARNESS(arrays_mixed) {
    int t = type_of("type"), u = type_of("type2");
    int n = (int)__sym_choice("na", 0, 2), m = (int)__sym_choice("nb", 0, 2);
    if (t != u) pair_(gen(K_ARRAY, t, n, "a"), gen(K_ARRAY, u, m, "b"));
}
HARNESS(nested) {
    int k = (int)__sym_choice("kind", K_NEST, K_MAP), t = (int)__sym_choice("type", 0, 3);
    static const int T[] = {TYPE_INT, TYPE_CHAR, TYPE_DOUBLE, TYPE_CFLOAT};
    pair_(gen(k, T[t], (int)__sym_choice("na", 0, 2), "a"), gen(k, T[t], (int)__sym_choice("nb", 0, 2), "b"));
}
HARNESS(kinds) {
    int k = (int)__sym_choice("kinda", 0, K_LAST), l = (int)__sym_choice("kindb", 0, K_LAST);
    int t = type_of("type"), u = (int)__sym_choice("type2", 0, 2);
    static const int T[] = {TYPE_CHAR, TYPE_INT, TYPE_DOUBLE};
    if (k != l) pair_(gen(k, t, 1, "a"), gen(l, T[u], 1 + (u & 1), "b"));
}
// maps: keys first
HARNESS(maps) {
    var a, b; a[undefined()]; b[undefined()];
    int n = (int)__sym_choice("na", 0, 2), m = (int)__sym_choice("nb", 0, 2);
    int ka[2], kb[2], va[2], vb[2];
    for (int i = 0; i < n; i++) { ka[i] = (int)__sym_bits("ka", 32); va[i] = (int)__sym_bits("va", 32); if (i) __sym_assume(ka[0] < ka[1]); a[var(ka[i])] = va[i]; }
    for (int i = 0; i < m; i++) { kb[i] = (int)__sym_bits("kb", 32); vb[i] = (int)__sym_bits("vb", 32); if (i) __sym_assume(kb[0] < kb[1]); b[var(kb[i])] = vb[i]; }
    bool lt, eq, gt; ops(a, b, lt, eq, gt);
    bool same = n == m;
    for (int i = 0; i < n && i < m; i++) same &= (ka[i] == kb[i]) & (va[i] == vb[i]);
    CHECK(eq == same, "maps are equal exactly when keys and values are");
    __sym_cover("maps end");
}
// an element compares as the value it holds, whatever the array it is in
static void through(int k, int t, int l, int u, int m) {
    long mk = __sym_leak_mark();
    {
        Val a = gen(K_ARRAY, t, 2, "a"), b = gen(l, u, m, "b");
        var x = make(a), y = make(b), z;
        if (k == 1) { z["k"] = make(a); x = z.at(var("k")); }
        int i = (int)__sym_choice("position", 0, 1);
        var c; c = x.at(i);
        bool lt, eq, gt, lt2, eq2, gt2;
        ops(x.at(i), y, lt, eq, gt); ops(c, y, lt2, eq2, gt2);
        CHECK((lt == lt2) & (eq == eq2) & (gt == gt2), "an element compares as its value does");
        if (l == K_ARRAY && m) {
            int j = (int)__sym_choice("position", 0, m - 1);
            var d; d = y.at(j);
            ops(x.at(i), y.at(j), lt, eq, gt); ops(c, d, lt2, eq2, gt2);
            CHECK((lt == lt2) & (eq == eq2) & (gt == gt2), "elements compare as their values do");
            CHECK(eq == ref_eq(a.e[i], b.e[j]), "elements are equal exactly when their values are");
            if (t == u && !cplx(t)) CHECK(lt == ref_lt(a.e[i], b.e[j]), "order of elements");
        }
        __sym_cover("through end");
    }
    __sym_leak_check(mk, "storage of compared values");
}
HARNESS(elements) { int t = type_of("type"); through((int)__sym_choice("in a map", 0, THOROUGH), t, K_ARRAY, t, (int)__sym_choice("nb", 1, 2)); }
HARNESS(elements_mixed) { int t = type_of("type"), u = type_of("type2"); if (t != u) through(0, t, K_ARRAY, u, 1); }
HARNESS(elements_kinds) { static const int T[] = {TYPE_CHAR, TYPE_LONG, TYPE_CFLOAT, TYPE_CDOUBLE}; int t = type_of("type"); through(0, t, (int)__sym_choice("kind", 0, K_LAST), T[__sym_choice("type2", 0, 3)], 1); }
// transitivity and substitution over triples
static void triple(const Val& a, const Val& b, const Val& c) {
    var x = make(a), y = make(b), z = make(c);
    bool xy = x < y, yz = y < z, xz = x < z;
    bool exy = x == y, eyz = y == z, exz = x == z;
    CHECK(!(xy & yz) | xz, "less is transitive");
    CHECK(!(exy & eyz) | exz, "equality is transitive");
    CHECK(!(exy & yz) | xz, "equal values compare alike");
    CHECK(!(xy & eyz) | xz, "equal values compare alike");
    __sym_cover("triple end");
}
HARNESS(trans_scalar) { int t = type_of("type"); triple(gen(K_SCALAR, t, 1, "a"), gen(K_SCALAR, t, 1, "b"), gen(K_SCALAR, t, 1, "c")); }
HARNESS(trans_string) {
    int n = (int)__sym_choice("na", 0, 2), m = (int)__sym_choice("nb", 0, 2), k = (int)__sym_choice("nc", 0, 2);
    triple(gen(K_ARRAY, TYPE_CHAR, n, "a"), gen(K_ARRAY, TYPE_CHAR, m, "b"), gen(K_ARRAY, TYPE_CHAR, k, "c"));
}
HARNESS(trans_array) {
    int t = (int)__sym_choice("type", TYPE_INT, TYPE_CDOUBLE);
    int n = (int)__sym_choice("na", 0, 1 + THOROUGH), m = (int)__sym_choice("nb", 0, 1 + THOROUGH), k = (int)__sym_choice("nc", 0, 1 + THOROUGH);
    triple(gen(K_ARRAY, t, n, "a"), gen(K_ARRAY, t, m, "b"), gen(K_ARRAY, t, k, "c"));
}
HARNESS(trans_kinds) {
    static const int T[] = {TYPE_CHAR, TYPE_INT, TYPE_DOUBLE, TYPE_CDOUBLE};
    static const int K[] = {K_UNDEF, K_SCALAR, K_ARRAY, K_NEST, K_MAP};
    Val v[3];
    for (int i = 0; i < 3; i++) { int k = K[__sym_choice("kind", 0, 4)]; v[i] = gen(k, k == K_UNDEF ? TYPE_INT : T[__sym_choice("type", 0, k == K_SCALAR || k == K_ARRAY ? 3 : 1)], 1, "v"); }
    triple(v[0], v[1], v[2]);
}
// longer arrays and strings which differ in one place at most, or in length
HARNESS(larger) {
    static const int N[] = {7, 9, 16, 18};
    int t = type_of("type"), n = N[__sym_choice("na", 0, 3)], d = (int)__sym_choice("longer", -1, 1), at = n - 1 - (int)__sym_choice("place", 0, 2) * (n / 3), nest = (int)__sym_choice("nested", 0, 1);
    if (t == TYPE_CDOUBLE) nest = 0;
    var x, y; Elem p, q;
    for (int s = 0; s < 2; s++) {
        int m = s ? n + d : n;
        var v = elem_var(elem_num(t, 0)); if (t == TYPE_CDOUBLE) v.resize(0); else { v.array(); v.resize(0); }
        if (nest) { v = undefined(); v.push("s"); }
        for (int i = 0; i < m; i++) {
            Elem e = elem_num(t, i % 5 + 1);
            if (i == at) { e = esym(t, s ? "b" : "a"); (s ? q : p) = e; }
            if (t == TYPE_CDOUBLE) v.append(elem_var(e)); else v.push(elem_var(e));
        }
        (s ? y : x) = v;
    }
    bool has = at < n + d, lt, eq, gt; // the differing place is in both
    ops(x, y, lt, eq, gt);
    CHECK(eq == (d == 0 && ref_eq(p, q)), "equal exactly when the elements and lengths are");
    if (!cplx(t)) {
        bool l = d > 0, e = true;
        if (has) { l = ref_lt(p, q); e = ref_eq(p, q); if (t == TYPE_CHAR && !nest) l = (unsigned char)p.a < (unsigned char)q.a; }
        CHECK(lt == (has ? l | (e & (d > 0)) : false), "lexicographic order");
    }
    { var c = x.copy(); CHECK(c == x, "a value equals its copy"); }
    __sym_cover("larger end");
}
