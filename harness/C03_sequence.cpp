//! time_quick: 100
//! time_thorough: 600
//! bound: array lengths up to 6 (value-symbolic histories) and every length from 1 to 66 across the capacity steps 8, 16, 32 and 64, and 127 to 1030 with one symbolic element; histories of 3 operations (thorough: 4) after a prefix of 0..3 elements
//! bound: every element type except keyed maps; element values are unconstrained bit patterns
#include "listops.h"


static void history(int t, int steps) {
    long m = __sym_leak_mark();
    {
        var v; EList r;
        int n = (int)__sym_choice("n", 1, 3);
        for (int i = 0; i < n; i++) { Elem e = elem_sym(t, "init"); put(v, e); r.insert(r.n, e); }
        same(v, r, t);
        for (int i = 0; i < steps; i++) step(v, r, t);
        __sym_cover("history end");
    }
    __sym_leak_check(m, "array storage");
}
HARNESS(hist_char) { history(TYPE_CHAR, 3); }
HARNESS(hist_int) { history(TYPE_INT, 3 + THOROUGH); }
HARNESS(hist_long) { history(TYPE_LONG, 2 + THOROUGH); }
HARNESS(hist_float) { history(TYPE_FLOAT, 2 + THOROUGH); }
HARNESS(hist_double) { history(TYPE_DOUBLE, 2 + THOROUGH); }
HARNESS(hist_cfloat) { history(TYPE_CFLOAT, 2 + THOROUGH); }
HARNESS(hist_cdouble) { history(TYPE_CDOUBLE, 2 + THOROUGH); }

// ---- one operation at every length across the growth steps
static void sweep(int t, int lo, int hi) {
    long m = __sym_leak_mark();
    {
        var v; EList r;
        int n = (int)__sym_choice("len", lo, hi);
        for (int i = 0; i < n; i++) { Elem e = elem_num(t, i); put(v, e); r.insert(i, e); }
        Elem e = elem_sym(t, "val");
        int op = (int)__sym_choice("op", 0, 8);
        int where = (op == 2 || op == 3) ? (int)__sym_choice("where", 0, 2) : 0;
        switch (op) {
        case 0: v.push(elem_var(e)); r.insert(n, e); break;
        case 1: v.unshift(elem_var(e)); r.insert(0, e); break;
        case 2: { int p = where == 0 ? 0 : where == 1 ? n / 2 : n; v.insert(elem_var(e), p); r.insert(p, e); break; }
        case 3: { int p = where == 0 ? 0 : where == 1 ? n / 2 : n - 1; var x = v.remove(p); CHECK(holds(x, r.remove(p)), "remove returned another element"); break; }
        case 4: { var x = v.shift(); CHECK(holds(x, r.remove(0)), "shift returned another element"); break; }
        case 5: { var x = v.pop(); CHECK(holds(x, r.remove(n - 1)), "pop returned another element"); break; }
        case 6: { var w; for (int i = 0; i < 3; i++) { Elem y = elem_num(t, 90 - 7 * i); put(w, y); r.insert(r.n, y); } v.append(w); break; }
        case 7: { if (n > 39) return; v.append(v); for (int i = 0; i < n; i++) r.insert(n + i, r.d[i]); break; }
        case 8: { int k = n / 2; v.resize(k); r.n = k; v.push(elem_var(e)); r.insert(k, e); break; }
        }
        same(v, r, t);
        // and the result is still usable
        Elem f = elem_num(t, 5); v.push(elem_var(f)); r.insert(r.n, f);
        same(v, r, t);
        __sym_cover("sweep end");
    }
    __sym_leak_check(m, "array storage");
}
HARNESS(sweep_char) { sweep(TYPE_CHAR, 1, THOROUGH ? 66 : 34); }
HARNESS(sweep_int) { sweep(TYPE_INT, 1, THOROUGH ? 66 : 34); }
HARNESS(sweep_long) { sweep(TYPE_LONG, 1, THOROUGH ? 66 : 34); }
HARNESS(sweep_float) { sweep(TYPE_FLOAT, 1, THOROUGH ? 66 : 34); }
HARNESS(sweep_double) { sweep(TYPE_DOUBLE, 1, THOROUGH ? 66 : 34); }
HARNESS(sweep_cfloat) { sweep(TYPE_CFLOAT, 1, THOROUGH ? 66 : 34); }
HARNESS(sweep_cdouble) { sweep(TYPE_CDOUBLE, 1, THOROUGH ? 66 : 34); }

// ---- positions: any 32 bit position; those that do not exist are refused and nothing changes
static void positions(int t) {
    long m = __sym_leak_mark();
    {
        var v; EList r;
        int n = (int)__sym_choice("n", 1, 3);
        for (int i = 0; i < n; i++) { Elem e = elem_num(t, i); put(v, e); r.insert(i, e); }
        Elem e = elem_sym(t, "val");
        int i = (int)__sym_range("pos", -2147483647L - 1, 2147483647L);
        const var& c = v;
        switch (__sym_choice("op", 0, 2)) {
        case 0: {
            bool bad = throws([&] { v.insert(elem_var(e), i); });
            CHECK(bad == (i < 0 || i > n), "insert at a position that does not exist has to be refused, at one that does not");
            if (!bad) r.insert(i, e);
            break;
        }
        case 1: {
            bool bad = throws([&] { var x = v.remove(i); CHECK(holds(x, r.d[i]), "remove returned another element"); });
            CHECK(bad == (i < 0 || i >= n), "remove at a position that does not exist has to be refused, at one that does not");
            if (!bad) r.remove(i);
            break;
        }
        case 2: {
            bool bad = throws([&] { var x; x = c.at(i); CHECK(holds(x, r.d[i]), "at() returned another element"); });
            CHECK(bad == (i < 0 || i >= n), "at() of a position that does not exist has to be refused, of one that does not");
            break;
        }
        }
        same(v, r, t);
        __sym_cover("positions end");
    }
    __sym_leak_check(m, "array storage");
}
HARNESS(pos_char) { positions(TYPE_CHAR); }
HARNESS(pos_int) { positions(TYPE_INT); }
HARNESS(pos_double) { positions(TYPE_DOUBLE); }
HARNESS(pos_cfloat) { positions(TYPE_CFLOAT); }
HARNESS_T(pos_long) { positions(TYPE_LONG); }
HARNESS_T(pos_float) { positions(TYPE_FLOAT); }
HARNESS_T(pos_cdouble) { positions(TYPE_CDOUBLE); }

// ---- nothing to take from an empty array
HARNESS(empty) {
    int t = (int)__sym_choice("type", T_FIRST, T_LAST);
    Elem e = elem_sym(t, "val");
    var v = elem_var(e);
    var p = v.pop();
    CHECK(holds(p, e), "pop of an array of one");
    CHECK(v.size() == 0, "array is empty");
    CHECK(throws([&] { v.pop(); }), "pop from an empty array has to be refused");
    CHECK(throws([&] { v.shift(); }), "shift from an empty array has to be refused");
    CHECK(throws([&] { v.remove(0); }), "remove from an empty array has to be refused");
    CHECK(v.size() == 0, "array is empty");
    v.push(elem_var(e));
    CHECK(v.size() == 1 && holds(v.at(0), e), "push after empty");
    var w = elem_var(e);
    var s = w.shift();
    CHECK(holds(s, e), "shift of an array of one");
    CHECK(w.size() == 0, "array is empty");
    __sym_cover("empty end");
}

// ---- arrays of variables of any kind
struct VElem { int kind; long x; };
static var ve_var(const VElem& e) {
    switch (e.kind) {
    case 0: return var((int)e.x);
    case 1: { char s[3] = {(char)e.x, 'z', 0}; return var(2, s); }
    case 2: { var a = (int)e.x; a.push((int)(e.x ^ 5)); return a; }
    case 3: { var a; a["k"] = (int)e.x; return a; }
    case 4: return var();
    case 5: return var((double)7.5);
    }
    return var();
}
static bool ve_holds(var v, const VElem& e) {
    switch (e.kind) {
    case 0: return v.type() == TYPE_INT && v.get<int>() == (int)e.x;
    case 1: return v.heap() && v.atype() == TYPE_CHAR && v.size() == 2 && v.str()[0] == (char)e.x && v.str()[1] == 'z';
    case 2: return v.heap() && v.atype() == TYPE_INT && v.size() == 2 && v.at(0).get<int>() == (int)e.x && v.at(1).get<int>() == (int)(e.x ^ 5);
    case 3: return v.heap() && v.atype() == TYPE_PAIR && v.size() == 1 && v.at("k").get<int>() == (int)e.x;
    case 4: return !v.defined();
    case 5: return v.type() == TYPE_DOUBLE && v.get<double>() == 7.5;
    }
    return false;
}
static VElem ve_sym(const char* name) {
    VElem e; e.kind = (int)__sym_choice("kind", 0, THOROUGH ? 5 : 3);
    e.x = e.kind == 1 ? (long)(signed char)__sym_bits(name, 8) : (long)(int)__sym_bits(name, 32);
    return e;
}
static void same_var(var& v, const RefList<VElem>& r) {
    CHECK(v.size() == r.n, "array length differs from the reference list");
    CHECK(v.atype() == TYPE_VAR, "an array of variables stays one");
    for (int i = 0; i < r.n; i++) { var x; x = v.at(i); CHECK(ve_holds(x, r.d[i]), "element differs from the reference list"); }
}
static void step_var(var& v, RefList<VElem>& r) {
    int n = r.n;
    VElem e; e.kind = 0; e.x = 0;
    int op = (int)__sym_choice("op", 0, 6);
    if (op == 0 || op == 3 || op == 4) e = ve_sym("val");
    switch (op) {
    case 0: v.push(ve_var(e)); r.insert(n, e); break;
    case 1: { if (!n) break; var p = v.pop(); CHECK(ve_holds(p, r.remove(n - 1)), "pop returned another element"); break; }
    case 2: { if (!n) break; var p = v.shift(); CHECK(ve_holds(p, r.remove(0)), "shift returned another element"); break; }
    case 3: v.unshift(ve_var(e)); r.insert(0, e); break;
    case 4: { int i = (int)__sym_choice("pos", 0, n); v.insert(ve_var(e), i); r.insert(i, e); break; }
    case 5: { if (!n) break; int i = (int)__sym_choice("pos", 0, n - 1); var p = v.remove(i); CHECK(ve_holds(p, r.remove(i)), "remove returned another element"); break; }
    case 6: { if (!n) break; int k = (int)__sym_choice("newlen", 0, n - 1); v.resize(k); r.n = k; break; }
    }
    same_var(v, r);
}
HARNESS(hist_var) {
    long m = __sym_leak_mark();
    {
        var v; RefList<VElem> r;
        VElem e; e.kind = 2; e.x = 11;
        v.push(ve_var(e)); r.insert(0, e);
        int n = (int)__sym_choice("n", 0, 2);
        for (int i = 0; i < n; i++) { e.kind = 1 - i; e.x = 40 + i; v.push(ve_var(e)); r.insert(r.n, e); }
        same_var(v, r);
        for (int i = 0; i < 2; i++) step_var(v, r);
        __sym_cover("history end");
    }
    __sym_leak_check(m, "array storage");
}
HARNESS(sweep_var) {
    long m = __sym_leak_mark();
    {
        var v; RefList<VElem> r;
        int n = (int)__sym_choice("len", 6, THOROUGH ? 34 : 17);
        for (int i = 0; i < n; i++) { VElem e; e.kind = i ? i % 4 : 1; e.x = 33 + i; v.push(ve_var(e)); r.insert(i, e); }
        step_var(v, r);
        VElem e; e.kind = 1; e.x = 'q'; v.push(ve_var(e)); r.insert(r.n, e);
        same_var(v, r);
        __sym_cover("sweep end");
    }
    __sym_leak_check(m, "array storage");
}

// ---- values of another numeric type are cast; what cannot be cast leaves the array alone
HARNESS(casting) {
    var v = 3; v.push(4); v.push(5);
    EList r; for (int i = 0; i < 3; i++) { Elem e; e.t = TYPE_INT; e.a = 3 + i; e.b = 0; r.insert(i, e); }
    int x = (int)(signed char)__sym_bits("val", 8);
    var y; bool str = false;
    switch (__sym_choice("type", 0, 4)) {
    case 0: y = (char)x; break;
    case 1: y = (long)x; break;
    case 2: y = (double)x; break;
    case 3: y = (float)x; break;
    case 4: y = "no number"; str = true; break;
    }
    Elem e; e.t = TYPE_INT; e.a = (unsigned long)(long)x; e.b = 0;
    int op = (int)__sym_choice("op", 0, 3);
    bool bad = throws([&] {
        switch (op) {
        case 0: v.push(y); break;
        case 1: v.unshift(y); break;
        case 2: v.insert(y, 1); break;
        case 3: v.append(y); break;
        }
    });
    if (!str) {
        CHECK(!bad, "a number can be put into an array of numbers");
        r.insert(op == 0 || op == 3 ? 3 : op == 1 ? 0 : 1, e);
        same(v, r, TYPE_INT);
    } else if (op < 2) {
        CHECK(bad, "a string that is no number cannot be put into an array of numbers");
        same(v, r, TYPE_INT);
    } else
        CHECK((int)v.atype() == TYPE_INT, "the type of the array does not change");
    __sym_cover("casting end");
}

// ---- appending to the variable that is appended, and to nothing
HARNESS(selfnil) {
    int t = (int)__sym_choice("type", T_FIRST, TYPE_CFLOAT);
    var v; EList r;
    int n = (int)__sym_choice("n", 1, 3);
    for (int i = 0; i < n; i++) { Elem e = elem_sym(t, "init"); put(v, e); r.insert(i, e); }
    var w; w.append(v);
    same(w, r, t);
    Elem e = elem_sym(t, "val");
    w.push(elem_var(e));
    same(v, r, t); // what was appended is a copy
    int p = (int)__sym_choice("pos", 0, n);
    v.insert(v, p);
    EList q; for (int i = 0; i < p; i++) q.insert(q.n, r.d[i]);
    for (int i = 0; i < n; i++) q.insert(q.n, r.d[i]);
    for (int i = p; i < n; i++) q.insert(q.n, r.d[i]);
    same(v, q, t);
    __sym_cover("self end");
}
// hundreds of elements
HARNESS(huge) {
    static const int N[] = {127, 128, 129, 256, 257, 1030};
    int t = (int)__sym_choice("type", T_FIRST, T_LAST), n = N[__sym_choice("len", 0, 5)], op = (int)__sym_choice("op", 0, 8), at = __sym_choice("place", 0, 1) ? n - 2 : n / 3;
    long m = __sym_leak_mark();
    {
        var v; for (int i = 0; i < n; i++) put(v, elem_num(t, i % 53));
        Elem e = elem_sym(t, "val"); var h = v;
        // the element at i before the operation was o(i)
        auto o = [&](int i) { return elem_num(t, i % 53); };
        auto all = [&](int len, auto f) { CHECK(v.size() == len && h.size() == len && (int)v.atype() == t, "length"); bool ok = v.size() == len; if (ok) for (int i = 0; i < len; i++) ok &= holds(v.at(i), f(i)); CHECK(ok, "element differs from the reference list"); if (t == TYPE_CHAR) CHECK(v.str()[len] == 0, "terminated"); };
        switch (op) {
        case 0: v.push(elem_var(e)); all(n + 1, [&](int i) { return i == n ? e : o(i); }); break;
        case 1: v.unshift(elem_var(e)); all(n + 1, [&](int i) { return i ? o(i - 1) : e; }); break;
        case 2: v.insert(elem_var(e), at); all(n + 1, [&](int i) { return i < at ? o(i) : i == at ? e : o(i - 1); }); break;
        case 3: { var x = v.remove(at); CHECK(holds(x, o(at)), "remove returned another element"); all(n - 1, [&](int i) { return o(i < at ? i : i + 1); }); break; }
        case 4: { var x = v.shift(); CHECK(holds(x, o(0)), "shift returned another element"); all(n - 1, [&](int i) { return o(i + 1); }); break; }
        case 5: { var x = v.pop(); CHECK(holds(x, o(n - 1)), "pop returned another element"); all(n - 1, o); break; }
        case 6: { v[at] = elem_var(e); v.append(v); all(2 * n, [&](int i) { i %= n; return i == at ? e : o(i); }); break; }
        case 7: v.resize(at); v.push(elem_var(e)); all(at + 1, [&](int i) { return i == at ? e : o(i); }); break;
        case 8: { v[at] = elem_var(e); var w = v.copy(); v[0] = elem_var(elem_num(t, 60)); CHECK(w.size() == n && holds(w.at(at), e) && holds(w.at(0), o(0)), "copy"); all(n, [&](int i) { return i == at ? e : i ? o(i) : elem_num(t, 60); }); break; }
        }
        __sym_cover("huge end");
    }
    __sym_leak_check(m, "array storage");
}
