//! time_quick: 100
//! time_thorough: 600
//! bound: arrays of 0 to 3 and 7 to 9 elements, every fundamental element type, nested arrays and maps; element values are unconstrained bit patterns; 1 or 2 operations through either handle, handles shared by assignment, copy construction, argument passing and storage in an array
#include "listops.h"

// ---- scalars
static void clobber(var& v, const Elem& e) {
    switch (__sym_choice("how", 0, 5)) {
    case 0: v = elem_var(e); break;
    case 1: v.push(v); break;
    case 2: v.resize(3); break;
    case 3: v = "text"; break;
    case 4: v.clear(); break;
    case 5: v.array(); v.at(0) = elem_var(e); break;
    }
}
static void byvalue(var v, const Elem& e, const Elem& f) { CHECK(holds(v, e), "argument differs from the value passed"); clobber(v, f); }
HARNESS(scalars) {
    int t = (int)__sym_choice("type", T_FIRST, TYPE_CFLOAT); // a cdouble is an array of one
    Elem e = elem_sym(t, "val"), f = elem_sym(t, "other");
    var a = elem_var(e);
    CHECK(holds(a, e), "scalar keeps its value");
    var b;
    int way = (int)__sym_choice("way", 0, 2);
    if (way == 0) {
        b = a;
        CHECK(holds(b, e), "assignment takes the value");
        if (__sym_choice("which", 0, 1)) { clobber(b, f); CHECK(holds(a, e), "a scalar changed when a copy did"); }
        else { clobber(a, f); CHECK(holds(b, e), "a copy changed when the scalar did"); }
    } else if (way == 1) {
        byvalue(a, e, f);
        CHECK(holds(a, e), "a scalar changed when passed by value");
    } else {
        var c(a);
        clobber(c, f);
        CHECK(holds(a, e), "a scalar changed when a copy did");
        var m; m["k"] = a; m["k"] = elem_var(f);
        CHECK(holds(a, e), "a scalar changed when a map entry did");
    }
    __sym_cover("scalars end");
}
// a scalar is overwritten by assigning an array and the other way around
HARNESS(kinds) {
    long m = __sym_leak_mark();
    {
        var v[3]; EList r; Elem e = elem_sym(TYPE_LONG, "val");
        Elem x = elem_num(TYPE_INT, 1), y = elem_num(TYPE_INT, 2);
        r.insert(0, x); r.insert(1, y);
        v[0] = elem_var(e);
        v[1] = elem_var(x); v[1].push(elem_var(y));
        v[2] = v[1];
        int a = (int)__sym_choice("to", 0, 2), b = (int)__sym_choice("from", 0, 2);
        v[a] = v[b];
        bool isarr[3] = {false, true, true};
        isarr[a] = isarr[b];
        for (int i = 0; i < 3; i++)
            if (isarr[i]) same(v[i], r, TYPE_INT); else CHECK(holds(v[i], e), "scalar value after assignment");
        __sym_cover("kinds end");
    }
    __sym_leak_check(m, "array storage");
}

// ---- arrays: a second handle sees every change
static void mutate(var v, EList& r, int t, int steps) { for (int i = 0; i < steps; i++) step(v, r, t); }
static var given(var v) { return v; }
static void shared(int t, int lo, int hi, int steps) {
    long m = __sym_leak_mark();
    {
        var v, w; EList r;
        int n = (int)__sym_choice("n", lo, hi);
        for (int i = 0; i < n; i++) { Elem e = i < 2 ? elem_sym(t, "init") : elem_num(t, i); put(v, e); r.insert(i, e); }
        if (!n) { v = elem_var(elem_num(t, 0)); if (t != TYPE_CDOUBLE) v.array(); v.resize(0); }
        if (n == 1) v.array();
        var store;
        int way = (int)__sym_choice("way", 0, 3);
        switch (way) {
        case 0: w = v; break;
        case 1: w = given(v); break;
        case 2: store.push(v); w = store[0]; break;
        case 3: store["key"] = v; w = store["key"]; break;
        }
        same(w, r, t);
        bool first = __sym_choice("which", 0, 1);
        var& a = first ? v : w; var& b = first ? w : v;
        if (way == 1) mutate(a, r, t, steps); // by value: the argument is a handle too
        else for (int i = 0; i < steps; i++) step(a, r, t);
        same(b, r, t);
        same(a, r, t);
        if (way == 2) { var x; x = store[0]; same(x, r, t); }
        if (way == 3) { var x; x = store["key"]; same(x, r, t); }
        // writing an element through one is seen through the other
        if (r.n) {
            Elem e = elem_sym(t, "write"); int i = (int)__sym_choice("at", 0, r.n - 1);
            b[i] = elem_var(e); r.d[i] = e;
            same(a, r, t); same(b, r, t);
        }
        // re-assigning a handle re-targets only that handle
        if (__sym_choice("retarget", 0, 1)) a = 5; else { var o = 1; o.push(2); a = o; }
        same(b, r, t);
        __sym_cover("shared end");
    }
    __sym_leak_check(m, "array storage");
}
HARNESS(shared_char) { shared(TYPE_CHAR, 0, 3, 1); }
HARNESS(shared_int) { shared(TYPE_INT, 0, 3, 1); }
HARNESS(shared_long) { shared(TYPE_LONG, 2, 2, 1); }
HARNESS(shared_float) { shared(TYPE_FLOAT, 2, 2, 1); }
HARNESS(shared_double) { shared(TYPE_DOUBLE, 2, 2, 1); }
HARNESS(shared_cfloat) { shared(TYPE_CFLOAT, 2, 2, 1); }
HARNESS(shared_cdouble) { shared(TYPE_CDOUBLE, 1, 2, 1); }
HARNESS(shared_grow) { shared(TYPE_INT, 7, 9, 1); }
HARNESS(shared2_int) { shared(TYPE_INT, 1, 2, 2); }
HARNESS(shared2_char) { shared(TYPE_CHAR, 1, 2, 2); }
HARNESS(shared_char_grow) { shared(TYPE_CHAR, 7, 9, 1); }
HARNESS(shared_double_grow) { shared(TYPE_DOUBLE, 15, 17, 1); }

// ---- copies are independent
static void copied(int t, int lo, int hi, int steps) {
    long m = __sym_leak_mark();
    {
        var v; EList r, q;
        int n = (int)__sym_choice("n", lo, hi);
        for (int i = 0; i < n; i++) { Elem e = i < 3 ? elem_sym(t, "init") : elem_num(t, i); put(v, e); r.insert(i, e); }
        if (!n) { v = elem_var(elem_num(t, 0)); if (t != TYPE_CDOUBLE) v.array(); v.resize(0); }
        if (n == 1 && __sym_choice("array", 0, 1)) v.array();
        var c = v.copy();
        q = r;
        same(c, q, t); same(v, r, t);
        bool first = __sym_choice("which", 0, 1);
        var& a = first ? v : c; EList& ra = first ? r : q;
        for (int i = 0; i < steps; i++) step(a, ra, t);
        if (ra.n) { Elem e = elem_sym(t, "write"); int i = (int)__sym_choice("at", 0, ra.n - 1); a[i] = elem_var(e); ra.d[i] = e; }
        same(c, q, t); same(v, r, t);
        if (__sym_choice("drop", 0, 1)) { a.clear(); if (first) same(c, q, t); else same(v, r, t); }
        __sym_cover("copied end");
    }
    __sym_leak_check(m, "array storage");
}
HARNESS(copied_char) { copied(TYPE_CHAR, 0, 3, 1); }
HARNESS(copied_int) { copied(TYPE_INT, 0, 3, 1); }
HARNESS(copied_long) { copied(TYPE_LONG, 0, 2, 1); }
HARNESS(copied_float) { copied(TYPE_FLOAT, 0, 2, 1); }
HARNESS(copied_double) { copied(TYPE_DOUBLE, 0, 2, 1); }
HARNESS(copied_cfloat) { copied(TYPE_CFLOAT, 0, 2, 1); }
HARNESS(copied_cdouble) { copied(TYPE_CDOUBLE, 0, 2, 1); }
HARNESS(copied_grow) { copied(TYPE_CHAR, 7, 9, 1); }
HARNESS(copied2_int) { copied(TYPE_INT, 1, 2, 2); }
HARNESS(copied2_char) { copied(TYPE_CHAR, 1, 2, 2); }
HARNESS(copied_double_grow) { copied(TYPE_DOUBLE, 15, 17, 1); }

// ---- nested arrays and maps: handles within handles, copies one level deep
HARNESS(nested) {
    long m = __sym_leak_mark();
    {
        Elem e = elem_sym(TYPE_INT, "val"), f = elem_sym(TYPE_INT, "new");
        var in = elem_var(e); in.push(7);
        var out;
        int kind = (int)__sym_choice("kind", 0, 1);
        if (kind == 0) { out.push(in); out.push("str"); } else { out["a"] = in; out["b"] = "str"; }
        var two = out;
        var cp = out.copy();
        CHECK(cp.size() == 2 && out.size() == 2, "copy has the same length");
        CHECK((int)cp.atype() == (int)out.atype(), "copy has the same type");
        var x; x = kind == 0 ? cp[0] : cp["a"];
        CHECK(x.size() == 2 && holds(x.at(0), e), "copy has the same elements");
        if (kind == 1) CHECK(str_eq(cp.key(0), "a") && str_eq(cp.key(1), "b"), "copy has the same keys");
        switch (__sym_choice("op", 0, 3)) {
        case 0: // the inner array is shared by everything
            in[0] = elem_var(f);
            x = kind == 0 ? out[0] : out["a"]; CHECK(holds(x.at(0), f), "inner array is shared");
            x = kind == 0 ? cp[0] : cp["a"]; CHECK(holds(x.at(0), f), "copies are one level deep");
            x = kind == 0 ? two[0] : two["a"]; CHECK(holds(x.at(0), f), "inner array is shared");
            break;
        case 1: // replacing an entry of the copy leaves the original alone
            if (kind == 0) cp[0] = 5; else cp["a"] = 5;
            x = kind == 0 ? out[0] : out["a"]; CHECK(x.size() == 2 && holds(x.at(0), e), "a change of the copy shows in the original");
            x = kind == 0 ? cp[0] : cp["a"]; CHECK(x.type() == TYPE_INT && x.get<int>() == 5, "element written");
            break;
        case 2: // adding and removing entries of the original leaves the copy alone
            if (kind == 0) { out.pop(); out.push(1); out.push(2); } else { out["c"] = 1; out["a"] = 2; }
            CHECK(two.size() == 3, "second handle sees the change");
            CHECK(cp.size() == 2, "a change of the original shows in the copy");
            x = kind == 0 ? cp[0] : cp["a"]; CHECK(x.size() == 2 && holds(x.at(0), e), "a change of the original shows in the copy");
            x = kind == 0 ? cp[1] : cp["b"]; CHECK(str_eq(x, "str"), "a change of the original shows in the copy");
            break;
        case 3: // dropping the original keeps the copy
            out.clear(); two.clear(); in.clear();
            x = kind == 0 ? cp[0] : cp["a"]; CHECK(x.size() == 2 && holds(x.at(0), e), "copy outlives the original");
            break;
        }
        __sym_cover("nested end");
    }
    __sym_leak_check(m, "array storage");
}
// copies of things that are no arrays
HARNESS(copyscalar) {
    int t = (int)__sym_choice("type", T_FIRST, T_LAST);
    Elem e = elem_sym(t, "val"), f = elem_sym(t, "other");
    var a = elem_var(e);
    var c = a.copy();
    CHECK(holds(c, e), "copy of a scalar");
    c = elem_var(f);
    CHECK(holds(a, e), "scalar unchanged");
    var n; var k = n.copy();
    CHECK(!k.defined(), "copy of nothing");
    __sym_cover("copyscalar end");
}
