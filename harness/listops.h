// Operations on an array next to the same operations on a reference list.
#pragma once
#include "common.h"

// the array `v` of element type t agrees with the reference
static void same(var& v, const EList& r, int t) {
    CHECK(v.size() == r.n, "array length differs from the reference list");
    if (r.n == 0) return;
    CHECK((int)v.atype() == t, "element type changed");
    for (int i = 0; i < r.n; i++)
        CHECK(holds(v.at(i), r.d[i]), "element differs from the reference list");
    if (t == TYPE_CHAR && v.heap())
        CHECK(v.str()[r.n] == 0, "character array not terminated");
}

// A cdouble is an array of one, so pushing it to undefined makes an array of arrays
static void put(var& v, const Elem& e) { if (!v.defined()) v = elem_var(e); else v.push(elem_var(e)); }

static void step(var& v, EList& r, int t) {
    Elem e = elem_sym(t, "val");
    int n = r.n;
    switch (__sym_choice("op", 0, 7)) {
    case 0: v.push(elem_var(e)); r.insert(n, e); break;
    case 1: {
        if (!n) { __sym_cover("pop on empty"); CHECK(throws([&] { v.pop(); }), "pop from an empty array has to be refused"); break; }
        var p = v.pop(); Elem x = r.remove(n - 1);
        CHECK(holds(p, x), "pop returned another value than the last");
        // the popped value does not change when the array is reused
        v.push(elem_var(e)); r.insert(r.n, e);
        CHECK(holds(p, x), "popped value changed when the array was reused");
        break;
    }
    case 2: {
        if (!n) break;
        var p = v.shift(); Elem x = r.remove(0);
        CHECK(holds(p, x), "shift returned another value than the first");
        break;
    }
    case 3: v.unshift(elem_var(e)); r.insert(0, e); break;
    case 4: { int i = (int)__sym_choice("pos", 0, n); v.insert(elem_var(e), i); r.insert(i, e); break; }
    case 5: {
        if (!n) break;
        int i = (int)__sym_choice("pos", 0, n - 1);
        var p = v.remove(i); Elem x = r.remove(i);
        CHECK(holds(p, x), "remove returned another value than the one removed");
        break;
    }
    case 6: { // append a whole array of the same type
        var w; EList s;
        int k = (int)__sym_choice("applen", 1, 2);
        for (int i = 0; i < k; i++) { Elem y = elem_sym(t, "app"); put(w, y); s.insert(s.n, y); }
        v.append(w);
        for (int i = 0; i < k; i++) r.insert(r.n, s.d[i]);
        CHECK(w.size() == k, "append changed its argument");
        for (int i = 0; i < k; i++) CHECK(holds(w.at(i), s.d[i]), "append changed its argument");
        break;
    }
    case 7: { // shrink
        if (!n) break;
        int k = (int)__sym_choice("len", 0, n - 1);
        v.resize(k); r.n = k;
        break;
    }
    }
    same(v, r, t);
}

