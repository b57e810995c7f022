//! time_quick: 100
//! time_thorough: 600
//! bound: arrays of 1 to 3 elements (growth: up to 5; thorough up to 9), and of 7 to 33 growing by up to 21, every element type against every assigned type, element values unconstrained; nesting depth 3; maps of up to 3 entries
//! assume: floating values assigned to integer elements are representable there
#include "listops.h"
#include "conv.h"

static var filled(int t, int n, EList& r) {
    var v = elem_var(elem_num(t, 0));
    if (t == TYPE_CDOUBLE) v.resize(0); else { v.array(); v.resize(0); }
    for (int i = 0; i < n; i++) { Elem e = elem_sym(t, "elem"); if (t == TYPE_CDOUBLE) v.append(elem_var(e)); else v.push(elem_var(e)); r.insert(i, e); }
    return v;
}
// every way to assign to element i
static void assign(var& v, int i, const var& x) {
    switch (__sym_choice("form", 0, 3)) {
    case 0: v[i] = x; break;
    case 1: v.at(i) = x; break;
    case 2: { var& w = v; w[var(i)] = x; break; }
    case 3: { var h = v; h[i] = x; break; } // through another handle
    }
}
static void write(int t) {
    EList r; int u = (int)__sym_choice("from", T_FIRST, T_LAST), n = (int)__sym_choice("n", 1, 3 + 2 * THOROUGH);
    long mk = __sym_leak_mark();
    {
        var v = filled(t, n, r);
        int i = (int)__sym_range("pos", 0, n - 1);
        Elem e = elem_sym(u, "val");
        __sym_assume(representable(e, t));
        var x = elem_var(e);
        assign(v, i, x);
        CHECK(holds(x, e), "the assigned value changed");
        r.d[i] = conv(e, t);
        same(v, r, t);
        __sym_cover("write end");
    }
    __sym_leak_check(mk, "array storage");
}
HARNESS(write_char) { write(TYPE_CHAR); }
HARNESS(write_int) { write(TYPE_INT); }
HARNESS(write_long) { write(TYPE_LONG); }
HARNESS(write_float) { write(TYPE_FLOAT); }
HARNESS(write_double) { write(TYPE_DOUBLE); }
HARNESS(write_cfloat) { write(TYPE_CFLOAT); }
HARNESS(write_cdouble) { write(TYPE_CDOUBLE); }

// indexing past the end grows the array
HARNESS(grow) {
    int t = (int)__sym_choice("type", T_FIRST, T_LAST);
    EList r; int n = (int)__sym_choice("n", 0, 3 + 5 * THOROUGH), k = (int)__sym_choice("gap", 0, 2);
    long mk = __sym_leak_mark();
    {
        var v = filled(t, n, r);
        var h = v;
        Elem e = elem_sym(t, "val");
        v[n + k] = elem_var(e);
        CHECK(v.size() == n + k + 1, "indexing past the end grows the array to hold the position");
        CHECK((int)v.atype() == t, "growing keeps the type");
        CHECK(holds(v.at(n + k), e), "the element assigned");
        for (int i = 0; i < n; i++) CHECK(holds(v.at(i), r.d[i]), "growing keeps the elements");
        CHECK(h.size() == v.size() && holds(h.at(n + k), e), "growth is seen through other handles");
        if (t == TYPE_CHAR) CHECK(v.str()[n + k + 1] == 0, "terminated");
        // reading past the end grows as well, without changing what is there
        var x; v[n + k + 1];
        CHECK(v.size() == n + k + 2, "indexing past the end grows the array to hold the position");
        CHECK(holds(v.at(n + k), e), "growing keeps the elements");
        CHECK(throws([&] { v[-1] = elem_var(e); }), "negative positions are refused");
        CHECK(throws([&] { v.at(n + k + 2) = elem_var(e); }), "at() refuses positions past the end");
        CHECK(throws([&] { v.at(-1) = elem_var(e); }), "at() refuses negative positions");
        CHECK(v.size() == n + k + 2, "a refused operation changes nothing");
        __sym_cover("grow end");
    }
    __sym_leak_check(mk, "array storage");
}
// scalars become arrays, undefined becomes an array of values
HARNESS(fresh) {
    int t = (int)__sym_choice("type", T_FIRST, T_LAST), u = (int)__sym_choice("from", T_FIRST, T_LAST), i = (int)__sym_choice("pos", 0, 2);
    long mk = __sym_leak_mark();
    {
        Elem s = elem_sym(t, "scalar"), e = elem_sym(u, "val");
        __sym_assume(representable(e, t));
        var v = elem_var(s);
        v[i] = elem_var(e);
        CHECK(v.size() == i + 1 && (int)v.atype() == t, "a scalar becomes an array of its type");
        CHECK(holds(v.at(i), conv(e, t)), "the element assigned");
        if (i) CHECK(holds(v.at(0), s), "the scalar is the first element");
        var w;
        w[i] = elem_var(e);
        CHECK(w.size() == i + 1 && (int)w.atype() == TYPE_VAR, "indexing nothing makes an array of values");
        CHECK(holds(w.at(i), e), "the element assigned, with its type");
        for (int j = 0; j < i; j++) CHECK(!w.at(j).defined(), "other elements are undefined");
        __sym_cover("fresh end");
    }
    __sym_leak_check(mk, "array storage");
}
// what was read does not follow later writes
HARNESS(detached) {
    int t = (int)__sym_choice("type", T_FIRST, T_LAST);
    EList r; int n = (int)__sym_choice("n", 1, 3), i = (int)__sym_choice("pos", 0, n - 1);
    long mk = __sym_leak_mark();
    {
        var v = filled(t, n, r);
        Elem e = elem_sym(t, "val"), f = elem_sym(t, "other");
        var x, y, m, a;
        x = v[i];
        y = v.at(i);
        m["k"] = v[i];
        a[1] = v[i];
        v[i] = elem_var(e);
        CHECK(holds(x, r.d[i]), "a stored element follows the array");
        CHECK(holds(y, r.d[i]), "a stored element follows the array");
        var p; p = m["k"]; CHECK(holds(p, r.d[i]), "an element stored in a map follows the array");
        p = a[1]; CHECK(holds(p, r.d[i]), "an element stored in an array follows the other array");
        x = elem_var(f);
        CHECK(holds(v.at(i), e), "the array follows a stored element");
        // element to element
        if (n > 1) { int j = (i + 1) % n; v[j] = v[i]; CHECK(holds(v.at(j), e), "element copied"); v[i] = elem_var(f); CHECK(holds(v.at(j), e), "element copied"); }
        __sym_cover("detached end");
    }
    __sym_leak_check(mk, "array storage");
}
// arrays of values: elements of any type, kept as they are
HARNESS(values) {
    long mk = __sym_leak_mark();
    {
        var v; v[2] = 0; EList r;
        int n = 3, t[3];
        for (int i = 0; i < n; i++) { t[i] = (int)__sym_choice("type", T_FIRST, T_LAST); r.insert(i, elem_sym(t[i], "elem")); v[i] = elem_var(r.d[i]); }
        for (int i = 0; i < n; i++) CHECK(holds(v.at(i), r.d[i]), "an element of an array of values is what was assigned");
        int i = (int)__sym_choice("pos", 0, n - 1);
        var s = "string";
        v[i] = s;
        for (int j = 0; j < n; j++) if (j != i) CHECK(holds(v.at(j), r.d[j]), "other elements");
        CHECK(str_eq(v.at(i), "string"), "element replaced");
        v[i] = undefined();
        CHECK(!v.at(i).defined() && v.size() == n, "element undefined");
        CHECK(str_eq(s, "string"), "the assigned value stays");
        __sym_cover("values end");
    }
    __sym_leak_check(mk, "array storage");
}
// nested indexing
HARNESS(nested) {
    long mk = __sym_leak_mark();
    {
        int t = (int)__sym_choice("type", T_FIRST, TYPE_CFLOAT), u = (int)__sym_choice("from", 0, 2);
        static const int U[] = {TYPE_INT, TYPE_DOUBLE, TYPE_CHAR};
        Elem e[4], x = elem_sym(U[u], "val");
        __sym_assume(representable(x, t));
        var v, in[2];
        for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { e[2 * i + j] = elem_sym(t, "elem"); in[i].push(elem_var(e[2 * i + j])); } }
        v["s"] = "text"; v["a"][0] = in[0]; v["a"][1] = in[1];
        int i = (int)__sym_choice("i", 0, 1), j = (int)__sym_choice("j", 0, 1);
        switch (__sym_choice("form", 0, 2)) {
        case 0: v["a"][i][j] = elem_var(x); break;
        case 1: v["a"].at(i).at(j) = elem_var(x); break;
        case 2: { var h; h = v["a"][i]; h[j] = elem_var(x); break; }
        }
        for (int k = 0; k < 4; k++) {
            Elem want = k == 2 * i + j ? conv(x, t) : e[k];
            CHECK(holds(in[k / 2].at(k % 2), want), "a write through nested indices changes that element only");
            var y; y = v["a"][k / 2][k % 2];
            CHECK(holds(y, want), "a nested element reads back");
        }
        CHECK(v.size() == 2 && in[0].size() == 2 && in[1].size() == 2, "lengths stay");
        var y; y = v["a"]; CHECK(y.size() == 2 && (int)y.atype() == TYPE_VAR, "lengths stay");
        y = v["s"]; CHECK(str_eq(y, "text"), "other entries stay");
        // a nested position past the end grows the inner array only
        v["a"][i][2] = elem_var(e[0]);
        CHECK(in[i].size() == 3 && in[1 - i].size() == 2, "growth of the inner array");
        CHECK(holds(in[i].at(2), e[0]), "the element assigned");
        // a new level
        v["n"][1]["k"] = elem_var(e[1]);
        y = v["n"][1]["k"]; CHECK(holds(y, e[1]), "element of a new level");
        y = v["n"][0]; CHECK(!y.defined(), "the element before it");
        CHECK(v.size() == 3, "one more entry");
        __sym_cover("nested end");
    }
    __sym_leak_check(mk, "array storage");
}
// maps: entries by key and by position
HARNESS(maps) {
    long mk = __sym_leak_mark();
    {
        var m; int val[3]; const char* key[] = {"a", "b", "c"};
        for (int i = 0; i < 3; i++) { val[i] = (int)__sym_bits("elem", 32); m[key[i]] = val[i]; }
        int u = (int)__sym_choice("from", T_FIRST, T_LAST), p = (int)__sym_choice("pos", 0, 2);
        Elem e = elem_sym(u, "val");
        switch (__sym_choice("form", 0, 3)) {
        case 0: m[key[p]] = elem_var(e); break;
        case 1: m[p] = elem_var(e); break;
        case 2: m.at(p) = elem_var(e); break;
        case 3: m.at(var(key[p])) = elem_var(e); break;
        }
        CHECK(m.size() == 3, "number of entries");
        for (int i = 0; i < 3; i++) {
            var y; y = m[key[i]];
            CHECK(str_eq(m.key(i), key[i]), "keys stay");
            if (i == p) CHECK(holds(y, e), "entry assigned, with its type");
            else CHECK(y.type() == TYPE_INT && y.get<int>() == val[i], "other entries stay");
        }
        __sym_cover("maps end");
    }
    __sym_leak_check(mk, "map storage");
}
// larger arrays: reading, writing and growing across the capacity steps
HARNESS(larger) {
    static const int N[] = {7, 8, 9, 15, 16, 17, 32, 33}, G[] = {0, 1, 7, 20};
    int t = (int)__sym_choice("type", T_FIRST, T_LAST), n = N[__sym_choice("n", 0, 7)], k = G[__sym_choice("gap", 0, 3)];
    long mk = __sym_leak_mark();
    {
        var v = elem_var(elem_num(t, 0)); if (t == TYPE_CDOUBLE) v.resize(0); else { v.array(); v.resize(0); }
        for (int i = 0; i < n; i++) { if (t == TYPE_CDOUBLE) v.append(elem_var(elem_num(t, i % 7))); else v.push(elem_var(elem_num(t, i % 7))); }
        var h = v, x;
        int i = n - 1 - (int)__sym_choice("pos", 0, 2) * (n / 3);
        Elem e = elem_sym(t, "val"), f = elem_sym(t, "other");
        x = v[i]; CHECK(holds(x, elem_num(t, i % 7)), "the element");
        v[i] = elem_var(e);
        v[n + k] = elem_var(f);
        CHECK(v.size() == n + k + 1 && (int)v.atype() == t && h.size() == n + k + 1, "indexing past the end grows the array to hold the position");
        for (int j = 0; j < n; j++) CHECK(holds(h.at(j), j == i ? e : elem_num(t, j % 7)), "growing keeps the elements");
        CHECK(holds(v.at(n + k), f), "the element assigned");
        CHECK(holds(x, elem_num(t, i % 7)), "a stored element follows the array");
        if (t == TYPE_CHAR) CHECK(v.str()[n + k + 1] == 0, "terminated");
        CHECK(throws([&] { v.at(n + k + 1) = elem_var(e); }) && throws([&] { v.at(-1) = elem_var(e); }) && throws([&] { v[-1] = elem_var(e); }), "refused positions");
        CHECK(v.size() == n + k + 1, "a refused operation changes nothing");
        // arrays of values and nested ones
        var w; w[n + k] = elem_var(e); w[i] = elem_var(f);
        CHECK(w.size() == n + k + 1 && holds(w.at(n + k), e) && holds(w.at(i), f), "array of values");
        for (int j = 0; j < n; j++) if (j != i) CHECK(!w.at(j).defined(), "other elements are undefined");
        __sym_cover("larger end");
    }
    __sym_leak_check(mk, "array storage");
}
