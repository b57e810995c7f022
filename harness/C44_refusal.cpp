//! time_quick: 150
//! time_thorough: 780
//! bound: every operation of the list on one or two operands out of 16 kinds, the second one also as an element of an array (undefined, numbers of three types, strings, arrays of integers, floats, complex numbers and anything, maps, vector and matrix views, emptied arrays and strings), indexes, sizes and offsets between -2 and 7, elements of any value (thorough: two operations one after the other)
//! assume: arithmetic in place on nested arrays is not taken back where it stops; str() is only used on strings
#include "mathops.h"
#include <iostream>

// what a value looks like from outside: type, shape, every element, recursively
struct Snap { long w[120]; int n; Snap() : n(0) {} void add(long x) { if (n < 120) w[n++] = x; } };
static void snap(Snap& s, const var& x, int depth = 0) {
    if (!x.defined()) { s.add(-1); return; }
    int t = (int)x.atype();
    s.add(t); s.add(x.heap() ? 1 : 0); s.add(x.size());
    if (depth > 2) return;
    if (t == TYPE_PAIR) { for (int i = 0; i < x.size(); i++) { snap(s, x.key(i), depth + 1); var e; e = x.at(i); snap(s, e, depth + 1); } return; }
    if (t == TYPE_VAR) { for (int i = 0; i < x.size(); i++) { var e; e = x.at(i); snap(s, e, depth + 1); } return; }
    if (x.heap() && x.view()) { s.add(x.dim()); s.add(x.offset()); for (int i = 0; i < x.dim(); i++) s.add(x.shape(i)); }
    var y(x);
    if (!x.heap()) { Elem e = elem_of(x, t); s.add((long)e.a); s.add((long)e.b); return; }
    for (int i = 0; i < x.size(); i++) { Elem e = raw(y, t, i); s.add((long)e.a); s.add((long)e.b); }
}
static bool same(const Snap& a, const Snap& b) {
    if (a.n != b.n) return false;
    bool ok = true; for (int i = 0; i < a.n; i++) ok &= a.w[i] == b.w[i];
    return ok;
}
enum { KINDS = 16 };
static void make(var& v, int k, const char* name) {
    switch (k) {
    case 0: break;
    case 1: v = (int)__sym_bits(name, 32); break;
    case 2: v = 2.5; break;
    case 3: v = cdouble(1, 2); break;
    case 4: { char b[3] = {(char)__sym_range(name, 'a', 'c'), 'b', 0}; v = b; break; }
    case 5: v = 4; v.array(); v.push((int)__sym_bits(name, 32)); v.push(9); break;
    case 6: v = 1.f; v.array(); v.push(f_of(__sym_bits(name, 32))); v.push(3.f); v.push(4.f); break;
    case 7: { var in; in = "xy"; v.array(); v[0] = 5; v.push(in); v.push(nil); break; }
    case 8: v[var("a")] = 1; v[var("b")] = "t"; break;
    case 9: { var b; b = 1.f; b.array(); for (int i = 0; i < 5; i++) b.push(2.f + i); v = b.view({2, 2}, 1); break; }
    case 10: { var b; b = 1; b.array(); for (int i = 0; i < 5; i++) b.push(2 + i); v = b.view({3}, 1); break; }
    case 11: v = cfloat(1, 2); v.array(); v.push(cfloat(3, 4)); break;
    case 12: v = "q"; v.pop(); break;
    case 13: v = 1.f; v.array(); v.pop(); break;
    case 14: { var b; b = 1; b.array(); for (int i = 0; i < 6; i++) b.push(2 + i); v = b.view({2, 3}, 1); break; }
    case 15: { var b; b = cdouble(1, 2); b.array(); for (int i = 0; i < 5; i++) b.push(cdouble(i, 3)); v = b.view({2, 3}, 0); break; }
    }
}
static bool nested(int k) { return k == 7 || k == 8; }
static int index_() { return (int)__sym_range("index", -2, 7); }
// f may change x; if it throws nothing has changed
template <class F> static void refuse(var& x, var& y, bool changes, F f) {
    Snap a, b, c, d; snap(a, x); snap(b, y);
    bool t = false;
    try { f(); } catch (const std::exception&) { t = true; __sym_cover("refused"); }
    if (t || !changes) { snap(c, x); CHECK(same(a, c), t ? "a refused operation changes nothing" : "an operation that reads changes nothing"); }
    snap(d, y); CHECK(same(b, d), "the other operand is as it was");
}
template <class F> static void run(F f, bool two) {
    { error warm("x"); try { throw error("y"); } catch (const std::exception&) {} }
    long mk = __sym_leak_mark();
    {
        int k = num("x", 0, KINDS - 1), q = two ? num("y", 0, KINDS - 1) : 0;
        var x, y; make(x, k, "a"); if (two) make(y, q, "b");
        if (two && num("element", 0, 1)) {
            var box, t; box.array(); box[0] = "s"; t = "t"; box.push(t); box[1] = y; // an array of anything: "s", y
            Snap a, b; snap(a, box); { var e = box.at(1); for (int r = 0; r <= THOROUGH; r++) f(x, e, k, q); } snap(b, box); CHECK(same(a, b), "the array of the other operand is as it was");
        }
        else for (int r = 0; r <= THOROUGH; r++) f(x, y, k, q);
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(grow) {
    run([](var& x, var& y, int k, int q) {
        int o = num("op", 0, 3);
        if (k == 8) return; // pushing onto a map is not defined
        refuse(x, y, true, [&] { switch (o) { case 0: x.push(y); break; case 1: x.unshift(y); break; case 2: x.append(y); break; case 3: x.insert(y, index_()); break; } });
    }, true);
    __sym_cover("grow end");
}
HARNESS(shrink) {
    run([](var& x, var& y, int k, int) {
        int o = num("op", 0, 5);
        refuse(x, y, true, [&] { switch (o) {
            case 0: { var r = x.pop(); break; } case 1: { var r = x.shift(); break; } case 2: { var r = x.remove(index_()); break; }
            case 3: x.resize(num("size", -2, 4)); break; case 4: x.clear(); break; case 5: x.array(); break; } });
    }, false);
    __sym_cover("shrink end");
}
HARNESS(write) {
    run([](var& x, var& y, int k, int q) { int i = num("index", -2, 4); if (i >= 0 && (!x.heap() || i >= x.size())) return; /* room is made first */ refuse(x, y, true, [&] { x[i] = y; }); }, true);
    __sym_cover("write end");
}
HARNESS(read) {
    run([](var& x, var& y, int k, int) {
        int o = num("op", 0, 8);
        refuse(x, y, false, [&] { switch (o) {
            case 0: { var r = x.at(index_()); break; } case 1: { var r = x.key(index_()); break; } case 2: { var r = x.copy(); break; }
            case 3: { var r = x.shape(); break; } case 4: { int r = x.shape(index_()); (void)r; break; } case 5: { int r = x.stride(index_()); (void)r; break; }
            case 6: { var r = x.top(); break; } case 7: { int r = x.offset(); (void)r; break; } case 8: { int r = x.dim(); (void)r; break; } } });
    }, false);
    __sym_cover("read end");
}
HARNESS(find) {
    run([](var& x, var& y, int k, int q) {
        int o = num("op", 0, 3);
        refuse(x, y, false, [&] { switch (o) {
            case 0: { var r = x.at(y); break; } case 1: { ind r = x.index(y); (void)(bool)r; break; } case 2: { bool r = x == y; (void)r; break; } case 3: { bool r = x < y; (void)r; break; } } });
    }, true);
    __sym_cover("find end");
}
HARNESS(views) {
    run([](var& x, var& y, int k, int) {
        int o = num("op", 0, 3), a = num("side", -1, 3), b = num("offset", -1, 3);
        refuse(x, y, o == 3, [&] { switch (o) {
            case 0: { var r = x.view({a}, b); break; } case 1: { var r = x.view({2, a}, b); break; } case 2: { var r = x.subview(a, b); break; } case 3: x.offset(b); break; } });
    }, false);
    __sym_cover("views end");
}
HARNESS(arith) {
    run([](var& x, var& y, int k, int q) {
        int o = num("op", 0, 8);
        if (o < 4 && nested(k)) return;
        if (o == 3 || o == 7) { if ((k == 4 && q != 12) || k == 1 || k == 5 || k == 10 || k == 14 || k == 7 || k == 8) return; } // integer division
        refuse(x, y, o < 4, [&] { switch (o) {
            case 0: x += y; break; case 1: x -= y; break; case 2: x *= y; break; case 3: x /= y; break;
            case 4: { var r = x + y; break; } case 5: { var r = x - y; break; } case 6: { var r = x * y; break; } case 7: { var r = x / y; break; }
            case 8: { var r = dot(x, y); break; } } });
    }, true);
    __sym_cover("arith end");
}
HARNESS(maths) {
    run([](var& x, var& y, int k, int) {
        int o = num("op", 0, 9);
        refuse(x, y, false, [&] { switch (o) {
            case 0: { var r = libube::sin(x); break; } case 1: { var r = libube::abs(x); break; } case 2: { var r = sum(x); break; } case 3: { var r = asum(x); break; }
            case 4: { var r = iamax(x); break; } case 5: { var r = transpose(x); break; } case 6: { var r = x.sort(); break; } case 7: { var r = real(x); break; }
            case 8: { var r = poly(x); break; } case 9: { var r = norm(x); break; } } });
    }, false);
    __sym_cover("maths end");
}
HARNESS(inplace) {
    run([](var& x, var& y, int k, int) {
        int o = num("op", 0, 5);
        if (nested(k)) return;
        refuse(x, y, true, [&] { switch (o) {
            case 0: x.sin(); break; case 1: x.abs(); break; case 2: x.real(); break; case 3: x.transpose(); break; case 4: x.floor(); break; case 5: x.norm(); break; } });
    }, false);
    __sym_cover("inplace end");
}
HARNESS(text) {
    run([](var& x, var& y, int k, int q) {
        int o = num("op", 0, 6);
        refuse(x, y, o > 3, [&] { switch (o) {
            case 0: { var r = libube::toupper(x); break; } case 1: { var r = strip(x); break; } case 2: { var r = x.join(" "); break; } case 3: { var r = concatenate({x, y}); break; }
            case 4: x.tolower(); break; case 5: x.strip(); break; case 6: x.append("ab"); break; } });
    }, true);
    __sym_cover("text end");
}
