//! time_quick: 100
//! time_thorough: 850
//! bound: up to 3 (thorough 4) items: commands of up to 3 symbolic characters, scalars, vectors of up to 3 and matrices of up to 3x3 numbers, 5 or 8 items with vectors of up to 24 and matrices of up to 9x2 and 5x8 (int, long: the first symbolic, 0 to 9, others of one and two digits; float, double: given), arrays and views, and items that cannot be plotted; with and without a file; up to two writes, each with its own file or none
//! assume: the pipe is replaced by a recording stand-in without errors after opening
#include "mathops.h"
namespace libube { extern "C" void factory_gnuplot(Module** oModule, var iArg); }
struct Text {
    char s[2048]; int n;
    Text() { n = 0; }
    void add(const char* p) { while (*p) s[n++] = *p++; }
    void add(char c) { s[n++] = c; }
    void line(const char* p) { add(p); add('\n'); }
};
static void is_log(const Text& t, const char* m) {
    CHECK(__stub_log_size() == t.n, m); if (__stub_log_size() != t.n) return;
    bool ok = true; const char* l = __stub_log(); for (int i = 0; i < t.n; i++) ok &= l[i] == t.s[i];
    CHECK(ok, m);
}
// element k of a test array and its text
static Elem value(int t, int k, Text& x) {
    bool first = k == 0; k %= 9;
    if (t == TYPE_INT || t == TYPE_LONG) {
        // the number of digits is fixed per position so that the text has a known length
        int lo = k % 2 ? 10 : 0, v = !first ? lo + k : (int)__sym_range("number", 0, 9);
        if (k % 2) x.add((char)('0' + v / 10));
        x.add((char)('0' + v % 10)); return elem_int(t, v);
    }
    static const double V[] = {0.5, -2, 1.25, 100, 0, -0.75, 3, 7.5, 12};
    static const char* const S[] = {"0.5", "-2", "1.25", "100", "0", "-0.75", "3", "7.5", "12"};
    x.add(S[k]); Elem e; e.t = t; e.a = t == TYPE_FLOAT ? bits_of((float)V[k]) : bits_of(V[k]); e.b = 0; return e;
}
static var item(Text& x, bool& bad) {
    static const int TT[] = {TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE};
    bad = false;
    switch (num("item", 0, 4)) {
    case 0: { char c[4]; int m = num("len", 1, 3); for (int i = 0; i < m; i++) { c[i] = (char)__sym_range("char", 32, 126); x.add(c[i]); } x.add('\n'); return var(m, c); }
    case 1: { int t = TT[num("type", 0, 3)]; Elem e = value(t, 1, x); x.add("\ne\n"); return elem_var(e); }
    case 2: {
        int t = TT[num("type", 0, 3)], m = num("len", 1, 3), vw = num("view", 0, 1); Arr a; int_arr(a, t, shape(m), 1, vw, 0, 0);
        var w = a.v; for (int i = 0; i < m; i++) { Elem e = value(t, i, x); w[i] = elem_var(e); x.add('\n'); }
        x.line("e"); return a.v;
    }
    case 3: {
        int t = TT[num("type", 0, 3)], r = num("rows", 1, 3), c = num("cols", 1, 3); Arr a; int_arr(a, t, shape(r, c), 1, true, 0, 0);
        var w = a.v;
        for (int j = 0; j < c; j++) { for (int i = 0; i < r; i++) { x.add(' '); Elem e = value(t, i * c + j, x); w(i, j) = elem_var(e); } x.add('\n'); }
        x.line("e"); return a.v;
    }
    }
    // something that cannot be plotted
    bad = true; var v;
    switch (num("unplottable", 0, 3)) {
    case 0: v["key"] = 1; break;
    case 1: v.push("a"); v.push("b"); break;
    case 2: v = var(2, cfloat(1, 2)); break;
    case 3: { Arr a; int_arr(a, TYPE_FLOAT, shape(1, 2, 1), 1, true, 0, 0); v = a.v; break; }
    }
    return v;
}
HARNESS(script) {
    { error warm("x"); }
    __stub_log_reset();
    long mk = __sym_leak_mark();
    {
        Text x; Module* m = 0; factory_gnuplot(&m, nil); file* f = dynamic_cast<file*>(m); CHECK(f != 0, "a file handler");
        x.add("[popen gnuplot -p w]"); is_log(x, "the plotter is started once"); CHECK(__stub_popen_live() == 1, "one pipe");
        // the first item is any, those after it alternate between a command and a small vector; the last is any again
        int k = num("items", 0, THOROUGH ? 4 : 3), named = num("named", 0, 1); bool bad = false; Text body; var v; v.push("x"); v.pop();
        for (int i = 0; i < k && !bad; i++) {
            if (i == 0 || i == k - 1) { var w = item(body, bad); v.resize(i + 1); v[i] = w; }
            else if (i == 1) { v.resize(2); v[1] = "cmd"; body.line("cmd"); }
            else { v.resize(3); v[2] = var(2, 7); body.add("7\n7\ne\n"); }
        }
        char nm[3] = {'f', (char)__sym_range("file", 'a', 'z'), 0}; var fn; if (named) fn = nm;
        if (named) { x.line("set term post eps"); x.add("set output \""); x.add(nm); x.add("\"\n"); }
        for (int i = 0; i < body.n; i++) x.add(body.s[i]);
        if (bad) CHECK(throws([&] { f->write(fn, v); }), "what cannot be plotted is refused");
        else f->write(fn, v);
        // the pipe stays open for more; the data were left alone
        int again = num("again", 0, bad ? 1 : k < 2 ? 3 : 2);
        if (again == 3) { var w; w.push("plot"); f->write("second", w); x.line("set term post eps"); x.line("set output \"second\""); x.line("plot"); }
        if (again == 2) { f->write(nil, v); for (int i = 0; i < body.n; i++) x.add(body.s[i]); }
        if (again == 1) { var w; w.push("replot"); f->write(nil, w); x.line("replot"); }
        delete m;
        x.add("[pclose]"); is_log(x, "everything sent, the pipe closed once"); CHECK(__stub_popen_live() == 0, "no pipe stays open");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("script end");
}
HARNESS(larger) {
    { error warm("x"); }
    __stub_log_reset();
    long mk = __sym_leak_mark();
    {
        static const int TT[] = {TYPE_INT, TYPE_LONG, TYPE_FLOAT, TYPE_DOUBLE};
        Text x; Module* m = 0; factory_gnuplot(&m, nil); file* f = dynamic_cast<file*>(m); x.add("[popen gnuplot -p w]");
        int items = 5 + num("items", 0, 1) * 3, t = TT[num("type", 0, 3)], first = num("first", 0, 3); var v; v.push("x"); v.pop();
        for (int i = 0; i < items; i++) switch ((i + first) % 4) {
        case 0: { char c[40]; int n = 10 + 3 * i; for (int k = 0; k < n; k++) c[k] = (char)('a' + k % 26); c[n / 2] = (char)__sym_range("char", 32, 126); for (int k = 0; k < n; k++) x.add(c[k]); x.add('\n'); v.push(var(n, c)); break; }
        case 1: { int n = 17 + i; Arr a; int_arr(a, t, shape(n), 1, i & 1, 0, 0); var w = a.v; for (int k = 0; k < n; k++) { Elem e = value(t, k, x); w[k] = elem_var(e); x.add('\n'); } x.line("e"); v.push(a.v); break; }
        case 2: { int r = 3 + i % 3, c = 8 - i % 2; Arr a; int_arr(a, t, shape(r, c), 1, true, 0, 0); var w = a.v; for (int j = 0; j < c; j++) { for (int k = 0; k < r; k++) { x.add(' '); Elem e = value(t, k * c + j, x); w(k, j) = elem_var(e); } x.add('\n'); } x.line("e"); v.push(a.v); break; }
        case 3: { int r = 9, c = 1 + i % 2; Arr a; int_arr(a, t, shape(r, c), 0, true, 0, 0); var w = a.v; for (int j = 0; j < c; j++) { for (int k = 0; k < r; k++) { x.add(' '); Elem e = value(t, k * c + j, x); w(k, j) = elem_var(e); } x.add('\n'); } x.line("e"); v.push(a.v); break; }
        }
        f->write(nil, v);
        delete m; x.add("[pclose]"); is_log(x, "every command and data point in order");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("larger end");
}
HARNESS(refused) {
    { error warm("x"); }
    __stub_log_reset();
    long mk = __sym_leak_mark();
    {
        Module* m = 0;
        if (num("no_plotter", 0, 1)) {
            __stub_popen_fail(1);
            CHECK(throws([&] { factory_gnuplot(&m, nil); }), "a plotter that cannot be started is refused");
            Text x; x.add("[popen gnuplot -p w]"); is_log(x, "nothing is sent or closed");
            __stub_popen_fail(0);
        }
        else {
            factory_gnuplot(&m, nil); file* f = dynamic_cast<file*>(m);
            CHECK(throws([&] { f->read("file"); }), "nothing to read");
            delete m;
            Text x; x.add("[popen gnuplot -p w][pclose]"); is_log(x, "nothing is sent");
        }
        CHECK(__stub_popen_live() == 0, "no pipe stays open");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("refused end");
}
HARNESS(unwritten) { // what cannot be written is reported
    { error warm("x"); }
    __stub_log_reset();
    long mk = __sym_leak_mark();
    {
        int k = num("writes", 0, 9), lines = num("lines", 0, 2), data = num("data", 0, 1);
        __stub_popen_fail(2 + k);
        Module* m = 0; factory_gnuplot(&m, nil); file* f = dynamic_cast<file*>(m);
        var v; v.array(); v[0] = "plot"; var d; d = 5; d.array(); if (data) v.push(d); else if (lines) v.push(var("x")); if (lines > 1) v.push(var("y"));
        int n = 2 * (data ? 3 : lines ? 2 : 1) + (lines > 1 ? 2 : 0);
        CHECK(throws([&] { f->write(nil, v); }) == (k < n), "what cannot be written, and nothing else, is refused");
        delete m; CHECK(__stub_popen_live() == 0, "no pipe stays open");
        __stub_popen_fail(0);
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("unwritten end");
}
