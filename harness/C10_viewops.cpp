//! time_quick: 120
//! time_thorough: 800
//! bound: views of rank 1 to 3 (up to 2x2x2 and 2x3), larger ones of 12 to 20 elements and rank up to 4, with offset 0 to 2, windows of 270 and 1000 elements with one symbolic; float and double for assignment, every element type otherwise; element values unconstrained; windows put over maps refused or read
//! max_instr: 40000000
//! assume: no NaN where elements are compared
#include "listops.h"
#include "conv.h"

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static void fill(int t, int n, var& v, EList& r, bool sym) {
    v = elem_var(elem_num(t, 0)); r.n = 0;
    if (t == TYPE_CDOUBLE) v.resize(0); else { v.array(); v.resize(0); }
    for (int i = 0; i < n; i++) { Elem e = sym ? elem_sym(t, "elem") : elem_num(t, i); if (t == TYPE_CDOUBLE) v.append(elem_var(e)); else v.push(elem_var(e)); r.insert(i, e); }
}
enum { SHAPES = 8 };
static const int SH[SHAPES][4] = {{3}, {2, 2}, {2, 3}, {2, 2, 2}, {1, 3}, {2, 1, 3, 2}, {4, 5}, {19}};
static const int RK[SHAPES] = {1, 2, 2, 3, 2, 4, 2, 1};
static int count(int k) { int n = 1; for (int i = 0; i < RK[k]; i++) n *= SH[k][i]; return n; }
static var mk(var& v, int k, int off) {
    const int* s = SH[k];
    return RK[k] == 1 ? v.view({s[0]}, off) : RK[k] == 2 ? v.view({s[0], s[1]}, off) : RK[k] == 3 ? v.view({s[0], s[1], s[2]}, off) : v.view({s[0], s[1], s[2], s[3]}, off);
}
// assigning to a view copies into the window
HARNESS(assign) {
    long mkk = __sym_leak_mark();
    {
        int t = num("type", 0, 1) ? TYPE_DOUBLE : TYPE_FLOAT, k = num("shape", 0, SHAPES - 1), n = count(k), o = num("offset", 0, 2);
        var v, y; EList r, s;
        fill(t, n + 2, v, r, true);
        int oy = num("srcoffset", 0, 1);
        fill(t, n + 1, y, s, true);
        var w = mk(v, k, o), h = w;
        var x;
        if (RK[k] == 1 && num("plain", 0, 1)) { oy = 0; y.pop(); s.n = n; x = y; } else x = mk(y, k, oy);
        w = x;
        for (int i = 0; i < n; i++) r.d[o + i] = s.d[oy + i];
        same(v, r, t); same(y, s, t);
        CHECK(w.view() && w.dim() == RK[k] && w.offset() == o, "the view stays a view of its window");
        for (int i = 0; i < n; i++) CHECK(holds(w.at(i), r.d[o + i]) && holds(h.at(i), r.d[o + i]), "the window shows the elements assigned");
        // they are copies
        Elem e = elem_sym(t, "val");
        y[oy] = elem_var(e);
        same(v, r, t);
        __sym_cover("assign end");
    }
    __sym_leak_check(mkk, "storage");
}
// a window of an array, by the row of a matrix
HARNESS(rows) {
    int t = num("type", 0, 1) ? TYPE_DOUBLE : TYPE_FLOAT; EList r;
    var v; fill(t, 6, v, r, true);
    var m = v.view({2, 3});
    int a = num("from", 0, 1), b = num("to", 0, 1);
    var ra = m.subview(1, a * 3), rb = m.subview(1, b * 3);
    rb = ra;
    for (int i = 0; i < 3; i++) r.d[b * 3 + i] = r.d[a * 3 + i];
    same(v, r, t);
    for (int i = 0; i < 3; i++) CHECK(holds(m(b, i), r.d[a * 3 + i]), "row copied");
    __sym_cover("rows end");
}
// another type or shape re-targets the handle and leaves the array alone
HARNESS(retarget) {
    long mkk = __sym_leak_mark();
    {
        EList r, s; int t = TYPE_FLOAT;
        var v; fill(t, 8, v, r, false);
        int k = num("shape", 0, 4), o = num("offset", 0, 1);
        if (count(k) + o > 8) return;
        var w = mk(v, k, o), h = w, x;
        int how = num("how", 0, 4); var y;
        switch (how) {
        case 0: x = 3; break;
        case 1: x = "text"; break;
        case 2: fill(TYPE_INT, count(k), y, s, false); x = mk(y, k, 0); break; // another type
        case 3: fill(t, count(k) + 1, y, s, false); if (RK[k] == 1) x = y; else x = y.view({1}); break; // another shape
        case 4: break;
        }
        w = x;
        same(v, r, t);
        CHECK(h.view() && h.offset() == o, "other handles keep their window");
        switch (how) {
        case 0: CHECK(w.type() == TYPE_INT && w.get<int>() == 3, "the handle takes the value"); break;
        case 1: CHECK(str_eq(w, "text"), "the handle takes the value"); break;
        case 2: CHECK((int)w.atype() == TYPE_INT && w.size() == count(k), "the handle takes the array"); break;
        case 3: CHECK(w.size() == x.size() && w.is(x), "the handle takes the array"); break;
        case 4: CHECK(!w.defined(), "the handle takes the value"); break;
        }
        for (int i = 0; i < count(k); i++) CHECK(holds(h.at(i), r.d[o + i]), "other handles keep their window");
        __sym_cover("retarget end");
    }
    __sym_leak_check(mkk, "storage");
}
// a view is only written through when the shapes agree in every dimension
HARNESS(shapes) {
    long mkk = __sym_leak_mark();
    {
        EList r, s; int t = TYPE_FLOAT;
        var v; fill(t, 8, v, r, false);
        int rk = num("rank", 1, 3), o = num("offset", 0, 1), a[3], n = 1;
        for (int i = 0; i < rk; i++) { a[i] = num("extent", 1, rk == 1 ? 4 : 2); n *= a[i]; }
        if (n + o > 8) return;
        var w = rk == 1 ? v.view({a[0]}, o) : rk == 2 ? v.view({a[0], a[1]}, o) : v.view({a[0], a[1], a[2]}, o), h = w;
        int rk2 = num("srcrank", 1, 3), b[3], m = 1; bool eq = rk2 == rk;
        for (int i = 0; i < rk2; i++) { b[i] = num("srcextent", 1, rk2 == 1 ? 4 : 2); m *= b[i]; if (i < rk) eq &= a[i] == b[i]; }
        var y, x; fill(t, m + 1, y, s, true);
        x = rk2 == 1 ? y.view({b[0]}, 1) : rk2 == 2 ? y.view({b[0], b[1]}, 1) : y.view({b[0], b[1], b[2]}, 1);
        w = x;
        if (eq) for (int i = 0; i < n; i++) r.d[o + i] = s.d[1 + i];
        same(v, r, t); same(y, s, t);
        CHECK(h.view() && h.size() == n && h.dim() == rk && h.offset() == o, "other handles keep their window");
        for (int i = 0; i < rk; i++) CHECK(h.shape(i) == a[i], "other handles keep their window");
        CHECK(w.view() && w.dim() == rk2 && w.size() == m, "the handle has the shape assigned");
        for (int i = 0; i < rk2; i++) CHECK(w.shape(i) == b[i], "the handle has the shape assigned");
        for (int i = 0; i < m; i++) CHECK(holds(w.at(i), s.d[1 + i]), "the handle shows the elements assigned");
        // afterwards the handle writes to what it shows
        Elem e = elem_sym(t, "val"); w.at(0) = elem_var(e);
        if (eq) r.d[o] = e; else s.d[1] = e;
        same(v, r, t); same(y, s, t);
        __sym_cover("shapes end");
    }
    __sym_leak_check(mkk, "storage");
}
// copy() is a view with the same geometry and contents on storage of its own
HARNESS(copies) {
    long mkk = __sym_leak_mark();
    {
        int t = num("type", T_FIRST, T_LAST), k = num("shape", 0, SHAPES - 1), n = count(k), o = num("offset", 0, 2);
        var v; EList r; fill(t, n + 2, v, r, true);
        var w = mk(v, k, o), c = w.copy();
        CHECK(c.view() && c.dim() == RK[k] && c.size() == n && (int)c.atype() == t, "a copy has the geometry");
        for (int i = 0; i < RK[k]; i++) CHECK(c.shape(i) == SH[k][i] && c.stride(i) == w.stride(i), "a copy has the geometry");
        for (int i = 0; i < n; i++) CHECK(holds(c.at(i), r.d[o + i]), "a copy has the contents");
        Elem e = elem_sym(t, "val"); int i = num("pos", 0, n - 1);
        c.at(i) = elem_var(e);
        same(v, r, t);
        for (int j = 0; j < n; j++) CHECK(holds(c.at(j), j == i ? e : r.d[o + j]), "a copy is changed alone");
        Elem f = elem_sym(t, "other"); Elem old = r.d[o + i];
        w.at((i + 1) % n) = elem_var(f);
        for (int j = 0; j < n; j++) CHECK(holds(c.at(j), j == i ? e : r.d[o + j]), "the original is changed alone");
        (void)old;
        __sym_cover("copies end");
    }
    __sym_leak_check(mkk, "storage");
}
// comparing and searching act on the elements shown
static bool nan_(const Elem& e) {
    switch (e.t) {
    case TYPE_FLOAT: { float f = f_of(e.a); return f != f; }
    case TYPE_DOUBLE: { double f = d_of(e.a); return f != f; }
    case TYPE_CFLOAT: { float f = f_of(e.a), g = f_of(e.b); return (f != f) | (g != g); }
    case TYPE_CDOUBLE: { double f = d_of(e.a), g = d_of(e.b); return (f != f) | (g != g); }
    }
    return false;
}
static bool eq_(const Elem& x, const Elem& y) {
    switch (x.t) {
    case TYPE_FLOAT: return f_of(x.a) == f_of(y.a);
    case TYPE_DOUBLE: return d_of(x.a) == d_of(y.a);
    case TYPE_CFLOAT: return (f_of(x.a) == f_of(y.a)) & (f_of(x.b) == f_of(y.b));
    case TYPE_CDOUBLE: return (d_of(x.a) == d_of(y.a)) & (d_of(x.b) == d_of(y.b));
    }
    return x.a == y.a;
}
HARNESS(compare) {
    int t = num("type", T_FIRST, T_LAST);
    EList r, s; var v, u; fill(t, 4, v, r, true); fill(t, 4, u, s, true);
    for (int i = 0; i < 4; i++) __sym_assume(!nan_(r.d[i]) & !nan_(s.d[i]));
    int o = num("offset", 0, 2), p = num("offset2", 0, 2), n = num("n", 1, 2), m = num("m", 1, 2);
    var w = v.view({n}, o), x = u.view({m}, p);
    bool same_ = n == m;
    for (int i = 0; i < n && i < m; i++) same_ &= eq_(r.d[o + i], s.d[p + i]);
    CHECK((w == x) == same_, "views are equal exactly when the elements they show are");
    CHECK((w != x) == !same_, "views are equal exactly when the elements they show are");
    int tri = (w < x) + (x < w) + (w == x);
    CHECK(tri == 1, "exactly one of less, equal and greater");
    // against a plain array of the elements shown
    var plain; EList q;
    fill(t, 0, plain, q, true);
    for (int i = 0; i < n; i++) if (t == TYPE_CDOUBLE) plain.append(elem_var(r.d[o + i])); else plain.push(elem_var(r.d[o + i]));
    CHECK(w == plain && plain == w && !(w < plain) && !(plain < w), "a view equals an array of its elements");
    CHECK((w < x) == (plain < x), "order of a view is that of its elements");
    __sym_cover("compare end");
}
HARNESS(search) {
    int t = num("type", T_FIRST, TYPE_CFLOAT);
    EList r; var v; fill(t, 5, v, r, true);
    Elem e = elem_sym(t, "val"); __sym_assume(!nan_(e));
    for (int i = 0; i < 5; i++) __sym_assume(!nan_(r.d[i]));
    int o = num("offset", 0, 2), n = num("n", 1, 3);
    var w = v.view({n}, o);
    ind x = w.index(elem_var(e));
    int want = -1;
    for (int i = n - 1; i >= 0; i--) if (eq_(r.d[o + i], e)) want = i;
    CHECK((bool)x == (want >= 0), "found exactly when shown");
    if (want >= 0) CHECK((long)x == want, "the first position in the view");
    same(v, r, t);
    __sym_cover("search end");
}
// operations that would change the length are refused
HARNESS(fixed) {
    long mkk = __sym_leak_mark();
    {
        int t = num("type", T_FIRST, T_LAST), k = num("shape", 0, SHAPES - 1), n = count(k), o = num("offset", 0, 2);
        var v; EList r; fill(t, n + 2, v, r, true);
        var w = mk(v, k, o);
        Elem e = elem_sym(t, "val"); var x = elem_var(e), y;
        int op = num("op", 0, 11); bool ref = true;
        switch (op) {
        case 0: ref = throws([&] { w.push(x); }); break;
        case 1: ref = throws([&] { w.pop(); }); break;
        case 2: ref = throws([&] { w.shift(); }); break;
        case 3: ref = throws([&] { w.unshift(x); }); break;
        case 4: ref = throws([&] { w.insert(x, 1); }); break;
        case 5: ref = throws([&] { w.remove(0); }); break;
        case 6: ref = throws([&] { w.append(v); }); break;
        case 7: ref = throws([&] { w.resize(n + 1); }); break;
        case 8: ref = throws([&] { w.resize(n - 1); }); break;
        case 9: ref = throws([&] { w[n] = x; }); break;
        case 10: ref = throws([&] { w.at(n) = x; }) && throws([&] { w.at(-1) = x; }); break;
        case 11: ref = throws([&] { w[-1] = x; }); break;
        }
        CHECK(ref, "an operation that would change the length of a view has to be refused");
        same(v, r, t);
        CHECK(w.view() && w.size() == n && w.offset() == o, "the view stays as it is");
        for (int i = 0; i < n; i++) CHECK(holds(w.at(i), r.d[o + i]), "the view stays as it is");
        __sym_cover("fixed end");
    }
    __sym_leak_check(mkk, "storage");
}
// linear indexing, every way, reads and writes the window
HARNESS(linear) {
    long mkk = __sym_leak_mark();
    {
        int t = num("type", T_FIRST, T_LAST), u = num("from", T_FIRST, T_LAST), k = num("shape", 0, SHAPES - 1), n = count(k), o = num("offset", 0, 2);
        var v; EList r; fill(t, n + 2, v, r, true);
        var w = mk(v, k, o); const var& cw = w;
        int i = (int)__sym_range("pos", 0, n - 1);
        Elem e = elem_sym(u, "val"); __sym_assume(representable(e, t));
        var x; x = cw[i];
        CHECK(holds(x, r.d[o + i]), "linear index");
        if (num("form", 0, 1)) w[i] = elem_var(e); else w.at(i) = elem_var(e);
        r.d[o + i] = conv(e, t);
        same(v, r, t);
        x = w[i];
        CHECK(holds(x, r.d[o + i]), "linear index");
        __sym_cover("linear end");
    }
    __sym_leak_check(mkk, "storage");
}
// windows of hundreds of elements, one of them symbolic
HARNESS(huge) {
    long mkk = __sym_leak_mark();
    {
        static const int NS[] = {300, 1030}; int n = NS[num("storage", 0, 1)], off = num("offset", 0, 2) * 8, t = num("type", 0, 2); t = t == 0 ? TYPE_INT : t == 1 ? TYPE_DOUBLE : TYPE_CFLOAT;
        var v = elem_var(elem_num(t, 0)); v.array(); v.resize(0);
        auto val = [&](int i) { return elem_num(t, i % 500 + 1); };
        for (int i = 0; i < n; i++) v.push(elem_var(val(i)));
        int k = n - 30, mat = num("matrix", 0, 1), r = 10, c = k / r; var w = mat ? v.view({r, c}, off) : v.view({k}, off);
        int at = num("at", 0, 2); at = at == 0 ? 0 : at == 1 ? k / 2 + 1 : k - 1;
        Elem e = elem_sym(t, "val"); __sym_assume(!nan_(e));
        auto shows = [&](const var& x, int o, int k, int at) { bool ok = true; for (int i = 0; i < k; i++) ok &= holds(x[i], i == at ? e : val(o + i)); CHECK(ok, "the elements shown"); };
        shows(w, off, k, -1);
        if (mat) w(at / c, at % c) = elem_var(e); else w[at] = elem_var(e);
        shows(w, off, k, at); shows(v, 0, n, off + at);
        var p = v.copy(), x = w.copy(); w[at] = elem_var(val(off + at)); shows(x, off, k, at); shows(p, 0, n, off + at); shows(v, 0, n, -1);
        CHECK((x == w) == eq_(e, val(off + at)), "views are equal exactly when the elements they show are");
        if (t == TYPE_DOUBLE) { w = x; shows(w, off, k, at); shows(v, 0, n, off + at); }
        __sym_cover("huge end");
    }
    __sym_leak_check(mkk, "storage");
}
// a window on a map shows keys and values
HARNESS(of_map) {
    long mkk = __sym_leak_mark();
    {
        var m; int n = num("n", 1, 4); for (int i = 0; i < n; i++) { char k[2] = {(char)('a' + i), 0}; m[var(k)] = i * 10; }
        int len = num("len", 1, n), off = num("offset", 0, n - len), e = (int)__sym_bits("val", 32);
        var w = m.view({len}, off);
        CHECK(w.size() == len && w.view(), "geometry");
        for (int i = 0; i < len; i++) { var k = w.key(i), x; char c[2] = {(char)('a' + off + i), 0}; str_check(k, c, 1, "key"); x = w.at(i); CHECK(x.get<int>() == (off + i) * 10, "value"); }
        CHECK(throws([&] { w.key(len); }) && throws([&] { w.key(-1); }), "keys outside the window are refused");
        int at = num("at", 0, len - 1); w.at(at) = e;
        for (int i = 0; i < n; i++) { char c[2] = {(char)('a' + i), 0}; var x = m.at(var(c)); CHECK(x.get<int>() == (i == off + at ? e : i * 10), "the entry in the window, and no other"); }
        __sym_cover("of map end");
    }
    __sym_leak_check(mkk, "storage");
}
