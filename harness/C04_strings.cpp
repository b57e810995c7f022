//! time_quick: 100
//! time_thorough: 600
//! max_instr: 40000000
//! bound: byte sequences of up to 5 symbolic bytes (every value, NUL included) under histories of 2 operations (thorough 3); every length from 0 to 66 across the capacity steps 8, 16, 32 and 64 with one operation; 127 to 2050 bytes with one symbolic byte
#include "common.h"

struct Bytes { char d[160]; int n; Bytes() : n(0) {}
    void ins(int p, const char* s, int k) { for (int i = n - 1; i >= p; i--) d[i + k] = d[i]; for (int i = 0; i < k; i++) d[p + i] = s[i]; n += k; }
    void del(int p) { for (int i = p; i + 1 < n; i++) d[i] = d[i + 1]; n--; }
};
static void same(const var& v, const Bytes& b, const char* msg = "string differs from the byte sequence") {
    CHECK(v.size() == b.n, "length of a string differs from the number of bytes");
    CHECK(v.defined() && v.heap() && v.atype() == TYPE_CHAR, "a string stays a string");
    const char* p = v.str();
    bool ok = true;
    for (int i = 0; i < b.n; i++) ok &= p[i] == b.d[i];
    CHECK(ok, msg);
    CHECK(p[b.n] == 0, "string not terminated directly after its last byte");
}
static char anyb(const char* n) { return (char)__sym_bits(n, 8); }

static void step(var& v, Bytes& b) {
    int n = b.n;
    char s[4]; int k;
    switch (__sym_choice("op", 0, 12)) {
    case 0: s[0] = anyb("c"); v.push(s[0]); b.ins(n, s, 1); break;
    case 1: { if (!n) break; var p = v.pop(); CHECK(p.type() == TYPE_CHAR && p.get<char>() == b.d[n - 1], "pop returned another byte"); b.n--; break; }
    case 2: { if (!n) break; var p = v.shift(); CHECK(p.type() == TYPE_CHAR && p.get<char>() == b.d[0], "shift returned another byte"); b.del(0); break; }
    case 3: s[0] = anyb("c"); v.unshift(s[0]); b.ins(0, s, 1); break;
    case 4: { s[0] = anyb("c"); s[1] = anyb("c"); k = (int)__sym_choice("k", 0, 2); int p = (int)__sym_choice("pos", 0, n); v.insert(var(k, s), p); b.ins(p, s, k); break; }
    case 5: { if (!n) break; int p = (int)__sym_choice("pos", 0, n - 1); var x = v.remove(p); CHECK(x.type() == TYPE_CHAR && x.get<char>() == b.d[p], "remove returned another byte"); b.del(p); break; }
    case 6: { s[0] = anyb("c"); s[1] = anyb("c"); k = (int)__sym_choice("k", 0, 2); v.append(var(k, s)); b.ins(n, s, k); break; }
    case 7: { s[0] = anyb("c"); s[1] = anyb("c"); s[2] = 0; __sym_assume(s[0] != 0 && s[1] != 0); v.append(s); b.ins(n, s, 2); break; }
    case 8: { s[0] = anyb("c"); s[1] = anyb("c"); s[2] = anyb("c"); v.append<char>(3, s); b.ins(n, s, 3); break; }
    case 9: { int q = (int)__sym_choice("to", 0, n); v.resize(q); b.n = q; break; }
    case 10: { if (!n) break; int p = (int)__sym_choice("pos", 0, n - 1); s[0] = anyb("c"); v[p] = s[0]; b.d[p] = s[0]; break; }
    case 11: { var w = v.copy(); same(w, b, "copy of a string differs"); v = w; break; }
    case 12: { s[0] = anyb("c"); v[n] = s[0]; b.ins(n, s, 1); break; }
    }
    same(v, b);
}
static void history(int steps) {
    long m = __sym_leak_mark();
    {
        int n = (int)__sym_choice("n", 0, 3);
        char s[8]; Bytes b;
        for (int i = 0; i < n; i++) s[i] = anyb("init");
        var v;
        switch (__sym_choice("how", 0, 3)) {
        case 0: v = var(n, s); break;
        case 1: for (int i = 0; i < n; i++) __sym_assume(s[i] != 0); s[n] = 0; v = s; break;
        case 2: v = ""; for (int i = 0; i < n; i++) v.push(s[i]); break;
        case 3: if (!n) return; v.append<char>(n, s); break;
        }
        b.ins(0, s, n);
        same(v, b, "constructed string differs");
        for (int i = 0; i < steps; i++) step(v, b);
        __sym_cover("history end");
    }
    __sym_leak_check(m, "string storage");
}
HARNESS(history) { history(2); }
HARNESS_T(history3) { history(3); }

// every length
HARNESS(lengths) {
    long m = __sym_leak_mark();
    {
        int n = (int)__sym_choice("len", 0, 66);
        char s[80]; Bytes b;
        for (int i = 0; i < n; i++) s[i] = (char)(1 + i * 3 % 120);
        if (n) { s[n - 1] = anyb("last"); __sym_assume(s[n - 1] != 0); }
        s[n] = 0;
        var v;
        int how = (int)__sym_choice("how", 0, 4);
        switch (how) {
        case 0: v = var(n, s); break;
        case 1: v = s; break;
        case 2: v = ""; for (int i = 0; i < n; i++) v.push(s[i]); break;
        case 3: v = ""; for (int i = n - 1; i >= 0; i--) v.unshift(s[i]); break;
        case 4: v = ""; v.append<char>(n, s); break;
        }
        b.ins(0, s, n);
        same(v, b, "constructed string differs");
        if (how < 2) {
            char c[4] = {anyb("c"), anyb("c"), anyb("c"), 0};
            switch (__sym_choice("op", 0, 9)) {
            case 0: v.push(c[0]); b.ins(n, c, 1); break;
            case 1: v.unshift(c[0]); b.ins(0, c, 1); break;
            case 2: v.append<char>(3, c); b.ins(n, c, 3); break;
            case 3: v.insert(var(2, c), n / 2); b.ins(n / 2, c, 2); break;
            case 4: if (n) { v.shift(); b.del(0); } break;
            case 5: if (n) { v.pop(); b.n--; } break;
            case 6: if (n) { v.remove(n / 2); b.del(n / 2); } break;
            case 7: v.append(v); for (int i = 0; i < n; i++) b.d[n + i] = b.d[i]; b.n = 2 * n; break;
            case 8: v.resize(n / 2); b.n = n / 2; break;
            case 9: v = v.copy(); break;
            }
            same(v, b);
            v.push(c[1]); b.ins(b.n, c + 1, 1);
            same(v, b);
        }
        __sym_cover("lengths end");
    }
    __sym_leak_check(m, "string storage");
}
// a resized string grows by what is written to it
HARNESS(growth) {
    int n = (int)__sym_choice("n", 1, 9), k = (int)__sym_choice("k", 0, 9);
    char s[12]; Bytes b;
    for (int i = 0; i < n; i++) s[i] = (char)('a' + i);
    s[0] = anyb("c");
    var v(n, s); b.ins(0, s, n);
    v.resize(n + k);
    CHECK(v.size() == n + k, "length after growing");
    CHECK(v.str()[n + k] == 0, "string not terminated after growing");
    for (int i = 0; i < k; i++) { char c = anyb("c"); v[n + i] = c; b.ins(n + i, &c, 1); }
    same(v, b);
    v.resize(1); b.n = 1;
    same(v, b);
    __sym_cover("growth end");
}
// arrays of strings from C arrays, and strings kept in arrays and maps
HARNESS(stored) {
    char x[3] = {anyb("c"), anyb("c"), 0};
    __sym_assume(x[0] != 0 && x[1] != 0);
    const char* list[] = {"one", x, "", 0};
    var a(list);
    CHECK(a.size() == 3, "one element for each string");
    var b(2, list);
    CHECK(b.size() == 2, "one element for each string");
    var e;
    e = a[0]; CHECK(str_eq(e, "one"), "first string");
    e = a[1]; CHECK(str_eq(e, x, 2), "second string");
    e = a[2]; CHECK(str_eq(e, "", 0), "third string");
    e = b[1]; CHECK(str_eq(e, x, 2), "second string");
    var m; m["k"] = x; m[x] = "v";
    e = m["k"]; CHECK(str_eq(e, x, 2), "string in a map");
    a[0].push('!'); // changing an element in place
    e = a[0]; CHECK(str_eq(e, "one!"), "string grown within an array");
    a[1].append("yz");
    char y[5] = {x[0], x[1], 'y', 'z', 0};
    e = a[1]; CHECK(str_eq(e, y, 4), "string grown within an array");
    CHECK(e.size() == 4, "length of a grown string");
    __sym_cover("stored end");
}
// a character is a string of one
HARNESS(single) {
    char c = anyb("c"), d = anyb("d");
    var v = c;
    v.push(d);
    Bytes b; b.ins(0, &c, 1); b.ins(1, &d, 1);
    same(v, b);
    var w = c; w.array();
    b.n = 1; same(w, b);
    w.append("ab"); b.ins(1, "ab", 2); same(w, b);
    var n; n.append("xy");
    Bytes e; e.ins(0, "xy", 2); same(n, e);
    __sym_cover("single end");
}
// long strings
HARNESS(huge) {
    static const int N[] = {127, 128, 129, 255, 256, 257, 1030, 2050};
    long m = __sym_leak_mark();
    {
        int n = N[__sym_choice("len", 0, 7)], at = __sym_choice("place", 0, 1) ? n - 2 : n / 3; static char s[2100];
        for (int i = 0; i < n; i++) s[i] = (char)(1 + i * 3 % 120);
        s[at] = anyb("byte"); __sym_assume(s[at] != 0); s[n] = 0;
        var v; switch (__sym_choice("how", 0, 3)) { case 0: v = var(n, s); break; case 1: v = s; break; case 2: v = ""; for (int i = 0; i < n; i++) v.push(s[i]); break; case 3: v = ""; v.append<char>(n, s); break; }
        char c = anyb("c"); int len = n;
        auto o = [&](int i) { return s[i]; };
        auto all = [&](int k, auto f) { CHECK(v.size() == k && v.atype() == TYPE_CHAR, "length of a string differs from the number of bytes"); if (v.size() != k) return; const char* p = v.str(); bool ok = true; for (int i = 0; i < k; i++) ok &= p[i] == f(i); CHECK(ok, "string differs from the byte sequence"); CHECK(p[k] == 0, "string not terminated directly after its last byte"); };
        all(len, o);
        switch (__sym_choice("op", 0, 7)) {
        case 0: v.push(c); all(n + 1, [&](int i) { return i == n ? c : s[i]; }); break;
        case 1: v.unshift(c); all(n + 1, [&](int i) { return i ? s[i - 1] : c; }); break;
        case 2: v.insert(var(1, &c), at); all(n + 1, [&](int i) { return i < at ? s[i] : i == at ? c : s[i - 1]; }); break;
        case 3: v.remove(at); all(n - 1, [&](int i) { return s[i < at ? i : i + 1]; }); break;
        case 4: v.resize(at + 1); all(at + 1, o); break;
        case 5: { var w = v.copy(); w.push(c); all(n, o); v = w; all(n + 1, [&](int i) { return i == n ? c : s[i]; }); break; }
        case 6: v.append(v); all(2 * n, [&](int i) { return s[i % n]; }); break;
        case 7: { var w = "x"; w.append(v); CHECK(w.size() == n + 1 && w.str()[n + 1] == 0, "appended"); v = w; all(n + 1, [&](int i) { return i ? s[i - 1] : 'x'; }); break; }
        }
        __sym_cover("huge end");
    }
    __sym_leak_check(m, "string storage");
}
