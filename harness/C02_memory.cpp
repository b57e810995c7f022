//! time_quick: 150
//! time_thorough: 800
//! bound: programs of 2 operations (thorough: 3) out of 20 kinds over three variables, from five starting shapes (scalars, strings, arrays, nested arrays, maps, views), every choice of operands; single operations at every length up to 34 (thorough 66); the last handle given up in every shape
//! assume: arrays that contain themselves are not built (reference counts cannot release those)
//! assume: an array used as a key of a map is not modified afterwards
#include "listops.h"

// is heap h reachable from v?
static bool reaches(const var& v, const IHeap* h, int depth) {
    if (!v.defined() || !v.heap()) return false;
    if (v.heap() == h) return true;
    if (depth == 0) return true;
    if (v.view()) return true; // a view holds the array it shows
    if (v.atype() != TYPE_VAR && v.atype() != TYPE_PAIR) return false;
    for (int i = 0; i < v.size(); i++) { var x; x = v.at(i); if (reaches(x, h, depth - 1)) return true; }
    return false;
}
static bool cycle(const var& into, const var& what) { return into.heap() && reaches(what, into.heap(), 5); }

static void build(var* v, int shape) {
    switch (shape) {
    case 0: v[0] = 1; v[1] = "abc"; break;
    case 1: v[0].push("x"); v[0].push(2); v[1] = 5; v[1].push(6); break;
    case 2: v[0]["k"] = "val"; v[0]["a"] = 3; v[1] = v[0]; break;
    case 3: v[0] = 1.5f; for (int i = 0; i < 3; i++) v[0].push(2.f + i); v[1] = v[0].view({2, 2}); break;
    case 4: { var in; in.push("deep"); in.push("er"); v[0].push(in); v[0].push(v[0].copy()); v[1] = in; break; }
    }
}
static void op(var* v, const char* tag) {
    int o = (int)__sym_choice("op", 0, 19);
    var& x = v[__sym_choice("x", 0, 2)];
    var& y = (o == 3 || o == 4 || o == 7 || o == 11 || o == 12 || o == 16) ? v[0] : v[__sym_choice("y", 0, 2)];
    if ((o == 2 || o == 5 || o == 6 || o == 9 || o == 10 || o == 14 || o == 17) && cycle(x, y)) return;
    try {
        switch (o) {
        case 0: x = y; break;
        case 1: x = "some text that is longer"; break;
        case 2: x.push(y); break;
        case 3: { var p = x.pop(); x = p; break; }
        case 4: { var p = x.shift(); x = p; break; }
        case 5: x.unshift(y); break;
        case 6: x.insert(y, 0); break;
        case 7: { var p = x.remove(0); v[2] = p; break; }
        case 8: x = y.copy(); break;
        case 9: if (x.defined() && x.heap() && x.atype() != TYPE_PAIR) return; x["k"] = y; break;
        case 10: x[2] = y; break;
        case 11: x.clear(); break;
        case 12: x.resize(9); x.resize(1); break;
        case 13: x = y[0]; break;
        case 14: x.append(y); break;
        case 15: if (y.view()) return; x = y.view({y.size()}); break;
        case 16: if (!x.atype<char>()) return; x.append("more"); break;
        case 17: x[0] = y; break;
        case 18: { bool b = x < y; bool c = x == y; (void)b; (void)c; break; }
        case 19: { ind i = x.index(y); (void)(bool)i; x = x.sort(); break; }
        }
    } catch (const std::exception&) { __sym_cover("refused"); }
}
static void program(int shape, int steps) {
    long m = __sym_leak_mark();
    {
        var v[3];
        build(v, shape);
        for (int i = 0; i < steps; i++) op(v, "op");
        // everything is still readable
        for (int k = 0; k < 3; k++) { var c = v[k].copy(); CHECK(c.size() == v[k].size(), "still readable"); }
        // release in any order
        switch (__sym_choice("order", 0, 2)) {
        case 0: v[0].clear(); break;
        case 1: v[1].clear(); v[0].clear(); break;
        case 2: v[2] = 1; break;
        }
        for (int k = 0; k < 3; k++) { var c = v[k].copy(); CHECK(c.size() == v[k].size(), "still readable"); }
        __sym_cover("program end");
    }
    __sym_leak_check(m, "storage reachable from no variable");
}
HARNESS(prog_plain) { program(0, 2); }
HARNESS(prog_array) { program(1, 2); }
HARNESS(prog_map) { program(2, 2); }
HARNESS(prog_view) { program(3, 2); }
HARNESS(prog_nest) { program(4, 2); }
HARNESS_T(prog3_plain) { program(0, 3); }
HARNESS_T(prog3_array) { program(1, 3); }
HARNESS_T(prog3_map) { program(2, 3); }
HARNESS_T(prog3_view) { program(3, 3); }
HARNESS_T(prog3_nest) { program(4, 3); }

// ---- every length across the growth steps, elements that own storage themselves
static const int LENS[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65};
static var owner(int kind, int k) {
    if (kind == 0) { char s[4] = {'s', (char)('A' + k % 50), 'x', 0}; return var(3, s); }
    if (kind == 1) { var a = k; a.push(k + 1); return a; }
    if (kind == 2) { var a; a["key"] = k; return a; }
    return var(cdouble(k, 1));
}
static void lengths(int kind, bool map) {
    long m = __sym_leak_mark();
    {
        var v;
        int n = LENS[__sym_choice("len", 0, 13)];
        for (int i = 0; i < n; i++) { if (map) v[owner(0, i)] = owner(kind, i); else if (i == 0 && kind == 3) { v.push(owner(0, 0)); } else v.push(owner(kind, i)); }
        int k = v.size();
        var held; held = map ? v[owner(0, 0)] : v[0];
        try {
            switch (__sym_choice("op", 0, map ? 5 : 10)) {
            case 0: v.resize(k / 2); break;
            case 1: v.remove(k / 2); break;
            case 2: v.remove(0); break;
            case 3: v = v.copy(); v.resize(0); break;
            case 4: { var p = v.pop(); held = p; break; }
            case 5: { var p = v.shift(); held = p; break; }
            case 6: v.unshift(owner(kind, 3)); break;
            case 7: v.insert(owner(kind, 3), k / 2); break;
            case 8: v.push(owner(kind, 3)); break;
            case 9: v[k + 5] = owner(kind, 3); break;
            case 10: v[k / 2] = 1; break;
            }
        } catch (const std::exception&) { __sym_cover("refused"); }
        if (__sym_choice("keep", 0, 1)) { v.clear(); CHECK(held.copy().size() == held.size(), "held element is readable"); }
        else { held.clear(); CHECK(v.copy().size() == v.size(), "array is readable"); }
        __sym_cover("lengths end");
    }
    __sym_leak_check(m, "storage reachable from no variable");
}
HARNESS(len_str) { lengths(0, false); }
HARNESS(len_arr) { lengths(1, false); }
HARNESS(len_map) { lengths(2, false); }
HARNESS(len_cdouble) { lengths(3, false); }
HARNESS(map_str) { lengths(0, true); }
HARNESS(map_arr) { lengths(1, true); }

// ---- numbers: growth and shrinking never touch what is beyond the storage
static void numbers(int t) {
    long m = __sym_leak_mark();
    {
        Elem e = elem_sym(t, "val");
        var v = elem_var(e);
        int n = LENS[__sym_choice("len", 0, 13)];
        v.resize(n); v.array();
        for (int i = 0; i < n; i++) v[i] = elem_var(elem_num(t, i));
        switch (__sym_choice("op", 0, 8)) {
        case 0: for (int i = 0; i < 3; i++) v.push(elem_var(e)); break;
        case 1: for (int i = 0; i < 3; i++) v.unshift(elem_var(e)); break;
        case 2: v.append(v); break;
        case 3: v.insert(v, n / 2); break;
        case 4: while (v.size()) v.shift(); break;
        case 5: while (v.size()) v.pop(); break;
        case 6: v.resize(n * 2); v.resize(1); v.resize(n); break;
        case 7: v.presize(n * 2); v.push(elem_var(e)); break;
        case 8: while (v.size()) v.remove(v.size() / 2); v.push(elem_var(e)); break;
        }
        var c = v.copy();
        CHECK(c.size() == v.size(), "readable");
        __sym_cover("numbers end");
    }
    __sym_leak_check(m, "storage reachable from no variable");
}
HARNESS(num_char) { numbers(TYPE_CHAR); }
HARNESS(num_int) { numbers(TYPE_INT); }
HARNESS(num_double) { numbers(TYPE_DOUBLE); }
HARNESS(num_cdouble) { numbers(TYPE_CDOUBLE); }
HARNESS_T(num_long) { numbers(TYPE_LONG); }
HARNESS_T(num_float) { numbers(TYPE_FLOAT); }
HARNESS_T(num_cfloat) { numbers(TYPE_CFLOAT); }

// ---- operations that are refused release what they built
// a handle on an element outlives every other handle on the array
HARNESS(last_handle) {
    long mk = __sym_leak_mark();
    {
        int kind = (int)__sym_choice("kind", 0, 4), map = (int)__sym_choice("map", 0, 1), op = (int)__sym_choice("op", 0, 8); long e = __sym_range("elem", -9, 9); char c = (char)__sym_range("char", 'a', 'z');
        var a, in;
        if (kind == 0) { in.push((int)e); in.push(7); } else if (kind == 1) { char s[3] = {'x', c, 0}; in = s; } else if (kind == 2) in[var("k")] = (int)e; else if (kind == 3) { var q; q.push(1); q.push((int)e); q.push(3); in = q.view({2}, 1); }
        if (map) { a[var("p")] = in; a[var("q")] = 5; } else { a.array(); a[0] = in; a[1] = "other"; }
        in.clear();
        if (kind == 3) { var q; in = q; }
        var x = map ? a[var("p")] : a[0]; // a handle on the element, not a copy of it
        { var none; a = none; }
        bool refused = false;
        try {
            switch (op) {
            case 0: x.push((int)e); break; case 1: x.resize(3); break; case 2: x[2] = (int)e; break; case 3: x[var("n")] = (int)e; break; case 4: x.array(); break;
            case 5: x.str(); break; case 6: { var y; y = x; y.push((int)e); break; } case 7: x.clear(); break; case 8: { var y = x.copy(); y = x; break; }
            }
        } catch (const std::exception&) { refused = true; }
        if (!refused && kind == 0 && op == 0) { var y; y = x[0]; CHECK(x.size() == 3 && y.get<int>() == (int)e, "the element"); }
        if (!refused && kind == 0 && op == 1) { var y; y = x[0]; CHECK(x.size() == 3 && y.get<int>() == (int)e, "the element"); }
        if (!refused && kind == 1 && op == 5) CHECK(x.size() == 2 && x.str()[1] == c, "the element");
        x.size(); x.defined();
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("last handle end");
}
HARNESS(refusals) {
    long m = __sym_leak_mark();
    {
        var a = 1.5; a.push(2.5); a.push(3.5);
        var s = "text", u;
        int i = (int)__sym_range("i", -1000, 1000), j = (int)__sym_range("j", -1000, 1000);
        bool t = throws([&] {
            switch (__sym_choice("op", 0, 9)) {
            case 0: a.push(s); break;
            case 1: a.view({i, j}); break;
            case 2: a.view({3}, i); break;
            case 3: { var v = a.view({3}); v.push(1.0); break; }
            case 4: { var v = a.view({3}); v(i); break; }
            case 5: a.remove(i); break;
            case 6: a.insert(s, j); break;
            case 7: { var c = s.cast<int>(); break; }
            case 8: a.resize(-1); break;
            case 9: s += a; break;
            }
        });
        if (t) __sym_cover("refused");
        CHECK(a.copy().size() == a.size(), "readable");
        __sym_cover("refusals end");
    }
    __sym_leak_check(m, "storage reachable from no variable");
}
