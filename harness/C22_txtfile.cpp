//! time_quick: 100
//! time_thorough: 850
//! bound: files of up to 6 (thorough 8) bytes of any value; one line of 61-66 or 125-130 bytes followed by another; lines of up to 4095 bytes; 8, 23, 38 and 300 lines, one of them symbolic; up to 34 elements written, one of them symbolic; arrays of up to 3 elements written: strings of up to 3 bytes, integers, undefined, typed arrays of integers
//! assume: the C++ file streams of libstdc++ run on a model of the file system without I/O errors
#include "common.h"
#include <sstream>
namespace libube { extern "C" void factory_txtfile(Module** oModule, var iArg); }

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static char byte(const char* n = "byte") { return (char)__sym_range(n, -128, 127); }
static void is_str(const var& v, const char* s, int n, const char* m) {
    CHECK(v.defined() && v.heap() && v.atype<char>() && v.dim() == 1, m);
    CHECK(v.size() == n, m);
    if (v.size() == n) for (int i = 0; i < n; i++) CHECK(v[i].get<char>() == s[i], m);
}
struct Txt {
    Module* m; file* f;
    Txt() { m = 0; factory_txtfile(&m, var()); f = dynamic_cast<file*>(m); CHECK(f != 0, "a file handler"); }
    ~Txt() { delete m; }
};
static const char* path(int bad) { return __vfs_path(bad ? "no/file" : "file"); }

static void reading(const char* s, int n, int change) {
    long mk = __sym_leak_mark();
    {
        Txt t;
        var v = t.f->read(path(0));
        int k = 0, at[4200];
        for (int i = 0; i < n; ) { at[k++] = i; while (i < n && s[i] != '\n') i++; i++; }
        at[k] = n + 1;
        if (k == 0) CHECK(!v.defined() || v.size() == 0, "no lines in an empty file");
        else {
            CHECK(v.defined() && v.heap() && !v.atype<char>() && v.size() == k, "one element per line");
            for (int i = 0; i < k; i++) { int e = at[i]; while (e < n && s[e] != '\n') e++; is_str(v[i], s + at[i], e - at[i], "line"); }
            if (change < k) {
                // elements are independent of each other
                v[change].push('!');
                for (int i = 0; i < k; i++) {
                    int e = at[i]; while (e < n && s[e] != '\n') e++;
                    if (i == change) CHECK(v[i].size() == e - at[i] + 1, "changed line"); else is_str(v[i], s + at[i], e - at[i], "another line after changing one");
                }
            }
        }
        char r[4300]; CHECK(__vfs_size("file") == n && __vfs_get("file", r, 4300) == n, "file untouched");
        for (int i = 0; i < n; i++) CHECK(r[i] == s[i], "file untouched");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("reading end");
}
HARNESS(lines) {
    char s[12]; int n = num("len", 0, THOROUGH ? 8 : 6);
    for (int i = 0; i < n; i++) s[i] = byte();
    __vfs_put("file", s, n);
    reading(s, n, num("change", 0, n < 2 ? 0 : 1));
}
HARNESS(longlines) {
    static const int B[] = {63, 127, 255, 1023, 4095};
    char s[4200]; int step = num("step", 0, 4), n = B[step] + num("over", -2, 3), tail = num("tail", 0, 3);
    for (int i = 0; i < n; i++) { s[i] = (char)('a' + i % 26); if (i >= B[step] - 2 && i <= B[step] + 1) { s[i] = byte(); __sym_assume(s[i] != '\n'); } }
    if (tail) s[n++] = '\n';
    if (tail > 1) { s[n++] = byte(); s[n++] = 'y'; __sym_assume(s[n - 2] != '\n'); }
    if (tail > 2) { s[n++] = '\n'; }
    __vfs_put("file", s, n);
    reading(s, n, num("change", 0, 1));
}
HARNESS(many) {
    char s[1000]; int n = 0, count = num("lines", 0, 3), lines = count == 3 ? 300 : count * 15 + 8, at = num("at", 0, 2) * (lines - 1) / 2, over = num("size", 0, 1), end = num("terminated", 0, 1);
    for (int i = 0; i < lines; i++) {
        int k = i % 4 == 3 ? 0 : 1 + i % 3; if (i == at) k = over ? 0 : 2;
        for (int j = 0; j < k; j++) { s[n] = (char)('a' + i % 26); if (i == at) { s[n] = byte(); __sym_assume(s[n] != '\n'); } n++; }
        if (i + 1 < lines || end || k == 0) s[n++] = '\n';
    }
    __vfs_put("file", s, n);
    reading(s, n, at);
}
HARNESS(writing_many) {
    long mk = __sym_leak_mark();
    {
        int k = 12 + num("count", 0, 2) * 11, at = num("at", 0, 2) * (k - 1) / 2, n = 0, typed = num("typed", 0, 1); char x[700];
        var v; if (typed) { v = 0; v.array(); v.pop(); } else { v.push("x"); v.pop(); }
        for (int i = 0; i < k; i++) {
            int d = 10 + i; if (i == at) d = (int)__sym_range("int", 10, 99);
            if (typed || i % 3) { v.push(d); x[n++] = (char)('0' + d / 10); x[n++] = (char)('0' + d % 10); }
            else { char s[20]; int m = i < 18 ? i : 18; for (int j = 0; j < m; j++) s[j] = (char)('a' + (i + j) % 26); if (m && i == at) { s[m - 1] = (char)__sym_range("byte", 'a', 'z'); } v.push(var(m, s)); x[n++] = '"'; memcpy(x + n, s, m); n += m; x[n++] = '"'; }
            x[n++] = '\n';
        }
        Txt t; t.f->write(path(0), v);
        char r[800]; CHECK(__vfs_size("file") == n && __vfs_get("file", r, 800) == n, "size of the file written");
        bool ok = true; for (int i = 0; i < n; i++) ok &= r[i] == x[i];
        CHECK(ok, "file written");
        CHECK(t.f->read(path(0)).size() == k, "lines read back");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("writing end");
}
HARNESS(unopenable) {
    long mk = __sym_leak_mark();
    {
        Txt t; int w = num("write", 0, 1), bad = w ? 1 : num("directory", 0, 1);
        var v; v.push("line");
        CHECK(throws([&] { if (w) t.f->write(path(bad), v); else t.f->read(path(bad)); }), "a file that cannot be opened is refused");
        // and the handler is still usable
        __vfs_put("file", "x\n", 2);
        var r = t.f->read(path(0));
        CHECK(r.size() == 1, "read after a failure"); is_str(r[0], "x", 1, "read after a failure");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("unopenable end");
}
HARNESS(writing) {
    long mk = __sym_leak_mark();
    {
        // what is written replaces what was there
        if (num("exists", 0, 1)) __vfs_put("file", "something long that was in the file before\n", 43);
        char x[64]; int n = 0, k = num("count", 0, 3);
        var v; v.push("x"); v.pop();
        if (num("typed", 0, 1)) { v = 0; v.array(); v.resize(0); for (int i = 0; i < k; i++) { int d = (int)__sym_range("int", 10, 99); v.push(d); x[n++] = (char)('0' + d / 10); x[n++] = (char)('0' + d % 10); x[n++] = '\n'; } }
        else for (int i = 0; i < k; i++) {
            v.resize(i + 1);
            switch (num("kind", 0, 2)) {
            case 0: {
                char s[4]; int m = num("len", 0, 2); x[n++] = '"';
                for (int j = 0; j < m; j++) { s[j] = (char)__sym_range("byte", 32, 126); __sym_assume(s[j] != '"' && s[j] != '\\' && s[j] != '/'); x[n++] = s[j]; }
                v[i] = var(m, s); x[n++] = '"'; break;
            }
            case 1: { int d = (int)__sym_range("int", 0, 9); v[i] = d; x[n++] = (char)('0' + d); break; }
            case 2: memcpy(x + n, "null", 4); n += 4; break;
            }
            x[n++] = '\n';
        }
        Txt t;
        t.f->write(path(0), v);
        char r[128];
        CHECK(__vfs_size("file") == n && __vfs_get("file", r, 128) == n, "size of the file written");
        for (int i = 0; i < n; i++) CHECK(r[i] == x[i], "file written");
        // and the lines come back
        var w = t.f->read(path(0));
        CHECK(k ? w.size() == k : (!w.defined() || w.size() == 0), "lines read back");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("writing end");
}
