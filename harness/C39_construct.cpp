//! time_quick: 100
//! time_thorough: 600
//! bound: every value of each of the seven fundamental types; strings and arrays of up to 4 (thorough 6) elements, sizes across the growth steps up to 34 with one symbolic element; filled arrays and views of up to 3 (thorough 4) per dimension; nesting of depth 2; every index
#include "common.h"
#include <utility>
#include <vector>

static const char* const A_NAME[] = {"array[array]", "array[char]", "array[int]", "array[long]", "array[float]", "array[double]", "array[cfloat]", "array[cdouble]", "array[var]", "array[pair]"};

// every query that tells a type agrees with `t`
static void atype_is(const var& v, int t) {
    CHECK((int)v.atype() == t, "atype() is the type of the elements");
    CHECK(v.atype<char>() == (t == TYPE_CHAR), "atype<char>()");
    CHECK(v.atype<int>() == (t == TYPE_INT), "atype<int>()");
    CHECK(v.atype<long>() == (t == TYPE_LONG), "atype<long>()");
    CHECK(v.atype<float>() == (t == TYPE_FLOAT), "atype<float>()");
    CHECK(v.atype<double>() == (t == TYPE_DOUBLE), "atype<double>()");
    CHECK(v.atype<cfloat>() == (t == TYPE_CFLOAT), "atype<cfloat>()");
    CHECK(v.atype<cdouble>() == (t == TYPE_CDOUBLE), "atype<cdouble>()");
    CHECK(v.atype<var>() == (t == TYPE_VAR), "atype<var>()");
}
static void is_scalar(const var& v, const Elem& e) {
    CHECK(v.defined() && (bool)v, "a value is defined");
    CHECK(v.size() == 1, "a value has size one");
    atype_is(v, e.t);
    CHECK((int)v.type() == (e.t == TYPE_CDOUBLE ? TYPE_ARRAY : e.t), "type() is the type of the value");
    str_check(v.typeStr(), T_NAME[e.t == TYPE_CDOUBLE ? TYPE_ARRAY : e.t], (int)strlen(T_NAME[e.t == TYPE_CDOUBLE ? TYPE_ARRAY : e.t]), "typeStr() names the type");
    const char* a = e.t == TYPE_CDOUBLE ? A_NAME[e.t] : T_NAME[e.t];
    str_check(v.atypeStr(), a, (int)strlen(a), "atypeStr() names the type");
    CHECK(elem_eq(elem_of(v, e.t), e), "the value is the one given");
    CHECK(!v.view() && v.dim() == 1, "a value is not a view");
    CHECK(v.shape(0) == 1, "the shape of a value is its size");
}
static void is_array(const var& v, int t, int n) {
    CHECK(v.defined() && (bool)v && v.heap(), "an array is defined");
    CHECK(v.size() == n, "an array has the size it was given");
    CHECK((int)v.type() == TYPE_ARRAY, "the type of an array is array");
    atype_is(v, t);
    str_check(v.typeStr(), "array", 5, "typeStr() of an array");
    str_check(v.atypeStr(), A_NAME[t], (int)strlen(A_NAME[t]), "atypeStr() of an array");
}
static void is_undefined(const var& v) {
    CHECK(!v.defined() && !(bool)v, "undefined");
    CHECK(v.size() == 0, "undefined has no elements");
    CHECK((int)v.type() == TYPE_ARRAY, "type() of undefined");
    CHECK(!v.heap(), "undefined has no storage");
    CHECK(throws([&] { v.atype(); }), "undefined has no element type");
    CHECK(throws([&] { v.atype<int>(); }), "undefined has no element type");
    CHECK(throws([&] { v.at(0); }), "undefined has no element");
    str_check(v.typeStr(), "array", 5, "typeStr() of undefined");
}

HARNESS(scalars) {
    long mk = __sym_leak_mark();
    for (int t = T_FIRST; t <= T_LAST; t++) {
        Elem e = elem_sym(t, "x");
        var v = elem_var(e);
        is_scalar(v, e);
        // a copy, a moved one and an element of a list of values
        var w(v); is_scalar(w, e); is_scalar(v, e);
        var x(std::move(w)); is_scalar(x, e); is_undefined(w);
        var y; y = x; is_scalar(y, e); is_scalar(x, e);
        // changing the copy leaves the source (for what is not an array)
        if (t != TYPE_CDOUBLE) {
            Elem f = elem_num(t, 3);
            y = elem_var(f); is_scalar(y, f); is_scalar(x, e);
        }
        y = undefined(); is_undefined(y); is_scalar(x, e);
        y.clear(); is_undefined(y);
        x.clear(); is_undefined(x);
    }
    __sym_cover("scalars end");
    __sym_leak_check(mk, "values");
}

HARNESS(strings) {
    long mk = __sym_leak_mark();
    {
        int n = (int)__sym_choice("n", 0, THOROUGH ? 6 : 4);
        char s[8];
        for (int i = 0; i < n; i++) s[i] = (char)__sym_bits("c", 8);
        s[n] = 0;
        var v(n, s);
        is_array(v, TYPE_CHAR, n); str_check(v, s, n, "a string of given length");
        for (int i = 0; i < n; i++) { var c; c = v[i]; CHECK((int)c.type() == TYPE_CHAR && c.get<char>() == s[i], "each byte"); }
        s[0] = 'x'; // the source is copied
        if (n > 0) { __sym_assume(v.str()[0] != 'x'); CHECK(v.str()[0] != 'x', "the string does not share the source"); }
        for (int i = 0; i < n; i++) { s[i] = (char)__sym_bits("d", 8); __sym_assume(s[i] != 0); }
        s[n] = 0;
        var w(s);
        is_array(w, TYPE_CHAR, n); str_check(w, s, n, "a C string");
        var x; x = s;
        str_check(x, s, n, "a C string assigned");
        x.append(s);
        char d[16]; for (int i = 0; i < 2 * n; i++) d[i] = s[i % (n ? n : 1)];
        str_check(x, d, 2 * n, "a C string appended");
        __sym_cover("strings end");
    }
    __sym_leak_check(mk, "strings");
}

HARNESS(string_arrays) {
    long mk = __sym_leak_mark();
    {
        char s[3][3]; const char* p[4];
        int n = (int)__sym_choice("n", 1, 3);
        for (int i = 0; i < n; i++) {
            int l = (int)__sym_choice("len", 0, 2);
            for (int j = 0; j < l; j++) { s[i][j] = (char)__sym_bits("c", 8); __sym_assume(s[i][j] != 0); }
            s[i][l] = 0; p[i] = s[i];
        }
        p[n] = 0;
        bool counted = __sym_choice("counted", 0, 1);
        int m = counted ? (int)__sym_choice("m", 1, 3) : n;
        __sym_assume(m <= n);
        var v = counted ? var(m, (const char* const*)p) : var((const char* const*)p);
        is_array(v, TYPE_VAR, m);
        for (int i = 0; i < m; i++) {
            var x; x = v[i];
            int l = (int)strlen(s[i]);
            str_check(x, s[i], l, "each string of the array");
            is_array(v.at(i), TYPE_CHAR, l); // and through the reference
        }
        __sym_cover("string arrays end");
    }
    // none
    const char* none[1] = {0};
    is_undefined(var((const char* const*)none));
    __sym_leak_check(mk, "arrays of strings");
}

// raw data, in one go and appended
template <class T> static void raw_append(int t) {
    long mk = __sym_leak_mark();
    {
        int n = (int)__sym_choice("n", 0, THOROUGH ? 4 : 3), m = (int)__sym_choice("m", 0, THOROUGH ? 4 : 3);
        Elem e[8]; T d[8] = {};
        for (int i = 0; i < n + m; i++) { e[i] = elem_sym(t, "x"); memcpy((void*)&d[i], &e[i].a, sizeof(T) < 8 ? sizeof(T) : 8); if (sizeof(T) == 16) memcpy((char*)&d[i] + 8, &e[i].b, 8); }
        var v;
        v.append<T>(n, d);
        is_array(v, t, n);
        var h = v;
        var& r = v.append<T>(m, d + n);
        CHECK(&r == &v, "append() returns its object");
        is_array(v, t, n + m);
        is_array(h, t, n + m); // an array is shared
        for (int i = 0; i < n + m; i++) CHECK(elem_eq(elem_of(v.at(i), t), e[i]), "each element is the one given");
        if (n) { d[0] = T(); CHECK(elem_eq(elem_of(v.at(0), t), e[0]), "the source is copied"); }
        // to an array of another type it is refused
        var o; o.push(2.5f); o.push(3.5f);
        CHECK(throws([&] { o.append<T>(m, d); }), "raw data of another type is refused");
        is_array(o, TYPE_FLOAT, 2);
        CHECK(o[0].template get<float>() == 2.5f && o[1].template get<float>() == 3.5f, "what was refused changes nothing");
        __sym_cover("raw append end");
    }
    __sym_leak_check(mk, "appended data");
}
HARNESS(append_char) { raw_append<char>(TYPE_CHAR); }
HARNESS(append_int) { raw_append<int>(TYPE_INT); }
HARNESS(append_cdouble) { raw_append<cdouble>(TYPE_CDOUBLE); }

HARNESS(raw_sizes) {
    long mk = __sym_leak_mark();
    {
        static const int N[] = {1, 2, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34};
        int n = N[__sym_choice("n", 0, 12)], m = N[__sym_choice("m", 0, THOROUGH ? 12 : 5)];
        int d[80], at = (int)__sym_range("at", 0, 70), x = (int)__sym_bits("x", 32);
        __sym_assume(at < n + m);
        for (int i = 0; i < n + m; i++) d[i] = i == at ? x : i * 5 - 3;
        var v(n, (const int*)d);
        is_array(v, TYPE_INT, n);
        v.append<int>(m, d + n);
        is_array(v, TYPE_INT, n + m);
        for (int i = 0; i < n + m; i++) CHECK(v.ptr<int>(i)[0] == d[i], "each element is the one given");
        var s;
        char c[80];
        for (int i = 0; i < n + m; i++) c[i] = (char)d[i];
        s.append<char>(n, c); s.append<char>(m, c + n);
        str_check(s, c, n + m, "each byte is the one given");
        __sym_cover("raw sizes end");
    }
    __sym_leak_check(mk, "sizes");
}

// a list in braces is the array of its elements
HARNESS(braces) {
    long mk = __sym_leak_mark();
    for (int t = T_FIRST; t <= T_LAST; t++) {
        Elem a = elem_sym(t, "a"), b = elem_sym(t, "b"), c = elem_sym(t, "c");
        var v = {elem_var(a), elem_var(b), elem_var(c)};
        if (t == TYPE_CDOUBLE) continue; // two-level by nature, see C03
        is_array(v, t, 3);
        CHECK(elem_eq(elem_of(v.at(0), t), a) && elem_eq(elem_of(v.at(1), t), b) && elem_eq(elem_of(v.at(2), t), c), "the elements of a list");
        var w = {v, elem_var(b)};
        is_array(w, TYPE_VAR, 2);
        is_array(w.at(0), t, 3);
        is_array(w[0], t, 3);
        is_scalar(w.at(1), b);
        CHECK(w.at(0).is(v), "an array in a list is shared");
    }
    __sym_cover("braces end");
    __sym_leak_check(mk, "lists");
}

// n copies of a value, and a view of given shape filled with a value
HARNESS(filled) {
    { error warm("x"); }
    long mk = __sym_leak_mark();
    for (int t = T_FIRST; t <= T_LAST; t++) {
        Elem e = elem_sym(t, "x"), f = elem_sym(t, "y");
        for (int n = 2; n <= (THOROUGH ? 9 : 4); n++) {
            if (t == TYPE_CDOUBLE) { CHECK(throws([&] { var(n, elem_var(e)); }), "an array is no value to fill with"); continue; }
            var v(n, elem_var(e));
            is_array(v, t, n);
            for (int i = 0; i < n; i++) CHECK(elem_eq(elem_of(v.at(i), t), e), "an array filled with a value");
            v[n - 1] = elem_var(f);
            for (int i = 0; i < n; i++) CHECK(elem_eq(elem_of(v.at(i), t), i == n - 1 ? f : e), "the elements are distinct");
        }
        if (t != TYPE_CDOUBLE) { var o(1, elem_var(e)); CHECK(holds(o, e), "one copy"); }
    }
    {
        var s("ab"), l = {1, 2};
        CHECK(throws([&] { var(3, s); }), "an array is no value to fill with");
        CHECK(throws([&] { var(3, l); }), "an array is no value to fill with");
    }
    __sym_cover("filled end");
    __sym_leak_check(mk, "filled arrays");
}
HARNESS(filled_views) {
    long mk = __sym_leak_mark();
    {
        int t = (int)__sym_choice("type", T_FIRST, T_LAST);
        int r = (int)__sym_choice("rows", 1, THOROUGH ? 4 : 3), c = (int)__sym_choice("cols", 1, THOROUGH ? 4 : 3), d = (int)__sym_choice("rank", 1, 3);
        Elem e = elem_sym(t, "x"), f = elem_sym(t, "y");
        if (t == TYPE_CDOUBLE) e.b = 0, f.b = 0; // (imaginary parts are covered by C09 and C10)
        var v = d == 1 ? var({c}, elem_var(e)) : d == 2 ? var({r, c}, elem_var(e)) : var({2, r, c}, elem_var(e));
        int n = d == 1 ? c : d == 2 ? r * c : 2 * r * c;
        CHECK(v.view(), "a shape makes a view");
        is_array(v, t, n);
        CHECK(v.dim() == d && v.offset() == 0, "the number of dimensions");
        int sh[3] = {2, r, c};
        var s; s = v.shape();
        CHECK(s.size() == d, "the shape has one entry per dimension");
        int st = 1;
        for (int i = d - 1; i >= 0; i--) {
            CHECK(v.shape(i) == sh[3 - d + i], "shape(i) is the size given");
            CHECK(v.shape(i - d) == sh[3 - d + i], "negative dimensions count from the last");
            CHECK(v.stride(i) == st, "rows are contiguous");
            st *= sh[3 - d + i];
            var x; x = s.at(i); CHECK(x.get<int>() == sh[3 - d + i], "shape() lists the sizes");
        }
        for (int i = 0; i < n; i++) CHECK(elem_eq(elem_of(v.at(i), t), e), "a view filled with a value");
        int k = (int)__sym_choice("k", 0, 31); __sym_assume(k < n);
        v.at(k) = elem_var(f);
        for (int i = 0; i < n; i++) CHECK(elem_eq(elem_of(v.at(i), t), i == k ? f : e), "the elements are distinct");
        __sym_cover("filled views end");
    }
    __sym_leak_check(mk, "filled views");
}

// queries on an element give what the element itself would
static void agree(const var& ref, const var& own) {
    CHECK(ref.defined() == own.defined(), "an element is defined as its value is");
    CHECK(ref.size() == own.size(), "the size of an element");
    CHECK((int)ref.type() == (int)own.type(), "the type of an element");
    CHECK((ref.heap() != 0) == (own.heap() != 0), "the storage of an element");
    if (own.defined()) {
        atype_is(ref, (int)own.atype());
        var a = own.atypeStr(), b = ref.atypeStr();
        str_check(b, a.str(), a.size(), "atypeStr() of an element");
        CHECK(ref == own && own == ref, "an element equals its value");
        CHECK(!(ref < own) && !(own < ref), "an element equals its value");
    } else {
        CHECK(throws([&] { ref.atype(); }), "undefined has no element type");
        str_check(ref.atypeStr(), "array", 5, "atypeStr() of undefined");
    }
    var a = own.typeStr(), b = ref.typeStr();
    str_check(b, a.str(), a.size(), "typeStr() of an element");
    CHECK(ref.dim() == own.dim() && ref.view() == own.view() && ref.shape(0) == own.shape(0), "the shape of an element");
}
static var some(int k) {
    switch (k) {
    case 0: return var();
    case 1: return var((char)__sym_bits("c", 8));
    case 2: return var((int)__sym_bits("i", 32));
    case 3: return var((long)__sym_bits("l", 64));
    case 4: { double d = d_of(__sym_bits("d", 64)); __sym_assume(d == d); return var(d); }
    case 5: return var("ab");
    case 6: { var v; v.push(1); v.push((int)__sym_bits("j", 32)); return v; }
    case 7: return var({var("x"), var(3)});
    case 8: { var m; m["k"] = (int)__sym_bits("m", 32); return m; }
    case 9: { var v({2, 2}, 1.5f); return v; }
    case 10: { var v; v.array(); v.resize(0); return v; }
    case 11: return var(cdouble(1.5, -2.0));
    case 12: return var(cfloat(1.5f, -2.0f));
    default: { float f = f_of(__sym_bits("f", 32)); __sym_assume(f == f); return var(f); }
    }
}
HARNESS(elements) {
    long mk = __sym_leak_mark();
    {
        int k = (int)__sym_choice("kind", 0, 13);
        var x = some(k);
        // an element of an array of anything
        var a; a[2] = var("last"); a[0] = var("first"); a[1] = x;
        agree(a.at(1), x); agree(a[1], x);
        const var& c = a; agree(c[1], x);
        // of an array in an array
        var b; b[0] = a; b[1] = var("y");
        agree(b.at(0).at(1), x); agree(b[0][1], x);
        // the value of a key
        var m; m["p"] = 1; m["q"] = x; m["r"] = "z";
        agree(m["q"], x); agree(m.at("q"), x); agree(m.at(1), x); agree(m[1], x);
        // and inside another map
        var o; o["u"] = m;
        agree(o["u"]["q"], x); agree(o.at("u").at("q"), x);
        is_array(o, TYPE_PAIR, 1); is_array(o["u"], TYPE_PAIR, 3); is_array(b, TYPE_VAR, 2);
        __sym_cover("elements end");
    }
    __sym_leak_check(mk, "elements");
}
// an element of a typed array
HARNESS(typed_elements) {
    for (int t = T_FIRST; t <= T_LAST; t++) {
        Elem e[3]; var v;
        for (int i = 0; i < 3; i++) e[i] = elem_sym(t, "x");
        if (t == TYPE_CDOUBLE) { cdouble d[3]; for (int i = 0; i < 3; i++) d[i] = cdouble(d_of(e[i].a), d_of(e[i].b)); v.append<cdouble>(3, d); }
        else for (int i = 0; i < 3; i++) v.push(elem_var(e[i]));
        int i = (int)__sym_choice("i", 0, 2);
        var r = v.at(i);
        CHECK(r.defined() && r.size() == 1 && !r.heap(), "an element of a typed array is a value");
        CHECK((int)r.type() == t, "its type is that of the array"); atype_is(r, t);
        str_check(r.typeStr(), T_NAME[t], (int)strlen(T_NAME[t]), "its type's name");
        str_check(r.atypeStr(), T_NAME[t], (int)strlen(T_NAME[t]), "its type's name");
        CHECK(elem_eq(elem_of(r, t), e[i]), "its value");
        // of a view
        var w = v.view({3});
        var q = w.at(i);
        CHECK((int)q.type() == t && q.size() == 1 && elem_eq(elem_of(q, t), e[i]), "an element of a view"); atype_is(q, t);
    }
    __sym_cover("typed elements end");
}

// storage: an array and its handles are the same; copies and anything else are not
HARNESS(sharing) {
    int k = (int)__sym_choice("kind", 0, 13);
    var x = some(k), y = some(k);
    CHECK(x.is(x), "a variable is itself");
    bool arr = x.heap() != 0;
    CHECK(!x.is(y) && !y.is(x), "two variables made apart are not the same");
    var h = x;
    CHECK(h.is(x) == arr && x.is(h) == arr, "handles of an array are the same, copies of a value are not");
    var c = x.copy();
    CHECK(!c.is(x) && !x.is(c), "a copy is not the same");
    var u;
    CHECK(!u.is(x) && !x.is(u), "undefined is nothing else");
    if (arr) {
        var a; a[0] = x; a[1] = y;
        var r = a.at(0);
        CHECK(r.is(x) && x.is(r), "an element that is an array is that array");
        CHECK(!r.is(y), "and no other");
    }
    __sym_cover("sharing end");
}

HARNESS(moves) {
    long mk = __sym_leak_mark();
    {
        int k = (int)__sym_choice("kind", 0, 13);
        var x = some(k), keep = x;
        var y(std::move(x));
        is_undefined(x);
        agree(y, keep);
        if (keep.heap()) CHECK(y.is(keep), "what is moved is not copied");
        x = 5; CHECK(x.get<int>() == 5, "what was moved from can be used again");
        agree(y, keep);
        // by return value and through a container of the standard library
        std::vector<var> q;
        for (int i = 0; i < 5; i++) { q.push_back(i == 2 ? keep : var(i)); }
        agree(q[2], keep);
        CHECK(q[4].get<int>() == 4 && q[0].get<int>() == 0, "the others");
        var z = y;
        z = std::move(y);
        agree(z, keep);
        __sym_cover("moves end");
    }
    __sym_leak_check(mk, "moves");
}

HARNESS(type_names) {
    long t = (long)__sym_range("type", -3, 20);
    bool known = t >= TYPE_ARRAY && t <= TYPE_PAIR;
    const char* s = 0;
    bool th = throws([&] { s = libube::typeStr(ind(t)); });
    CHECK(th == !known, "a type that does not exist has no name");
    if (known) {
        static const char* const N[] = {"array", "char", "int", "long", "float", "double", "cfloat", "cdouble", "var", "pair"};
        CHECK(!strcmp(s, N[__sym_concretize(t)]), "each type has its name");
    }
    str_check(var().atypeStr(), "array", 5, "atypeStr() of undefined");
    __sym_cover("type names end");
}
