//! time_quick: 120
//! time_thorough: 800
//! bound: all strings of 0 to 5 bytes (thorough 6), every byte value including NUL; strings of 9 to 1630 bytes with one symbolic byte; function, method, output argument and array forms; arrays of arrays and maps of strings, views of strings
#include "common.h"

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static bool space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
enum { STRIP, UPPER, LOWER };
// the expected result, at d
static int ref(int op, const char* s, int n, char* d) {
    if (op == STRIP) {
        int b = 0, e = n;
        while (b < n && space(s[b])) b++;
        while (e > b && space(s[e - 1])) e--;
        for (int i = b; i < e; i++) d[i - b] = s[i];
        return e - b;
    }
    for (int i = 0; i < n; i++) {
        char c = s[i];
        if (op == UPPER) d[i] = ((c >= 'a') & (c <= 'z')) ? (char)(c - 32) : c;
        else d[i] = ((c >= 'A') & (c <= 'Z')) ? (char)(c + 32) : c;
    }
    return n;
}
static var fun(int op, const var& v) { return op == STRIP ? strip(v) : op == UPPER ? libube::toupper(v) : libube::tolower(v); }
static var fun2(int op, const var& v, var& o) { return op == STRIP ? strip(v, o) : op == UPPER ? libube::toupper(v, o) : libube::tolower(v, o); }
static var met(int op, var& v) { return op == STRIP ? v.strip() : op == UPPER ? v.toupper() : v.tolower(); }
static void one(int op, int n, int form) {
    long mk = __sym_leak_mark();
    {
        char s[8], d[8];
        for (int i = 0; i < n; i++) s[i] = (char)__sym_bits("byte", 8);
        s[n] = 0;
        var v(n, s), r, h = v;
        switch (form) {
        case 0: r = fun(op, v); break;
        case 1: r = met(op, v); break;
        case 2: { var o = "previous"; r = fun2(op, v, o); int m = ref(op, s, n, d); str_check(o, d, m, "output argument"); break; }
        case 3: { r = fun2(op, v, v); break; }
        }
        int m = ref(op, s, n, d);
        str_check(r, d, m, op == STRIP ? "leading and trailing white space removed and nothing else" : "letters mapped and nothing else");
        if (form == 1 || form == 3) { str_check(v, d, m, "the method changes the string in place"); str_check(h, d, m, "in place for every handle"); }
        else { str_check(v, s, n, "the function leaves its argument alone"); r.push('!'); str_check(v, s, n, "the result is a new string"); }
        __sym_cover("one end");
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(strip_) { one(STRIP, num("len", 0, 4 + THOROUGH), num("form", 0, 3)); }
HARNESS(strip5) { one(STRIP, 5 + THOROUGH, num("form", 0, 1)); }
HARNESS(upper) { one(UPPER, num("len", 0, 4), num("form", 0, 3)); }
HARNESS(lower) { one(LOWER, num("len", 0, 4), num("form", 0, 3)); }
// arrays of strings
static void many(int op) {
    long mk = __sym_leak_mark();
    {
        int k = num("strings", 1, 2 + THOROUGH), n[3], form = num("form", 0, 1); char s[3][4], d[4];
        var v; v[k - 1] = 0;
        for (int i = 0; i < k; i++) { n[i] = num("len", 0, 2); for (int j = 0; j < n[i]; j++) s[i][j] = (char)__sym_bits("byte", 8); s[i][n[i]] = 0; v[i] = var(n[i], s[i]); }
        var r = form ? met(op, v) : fun(op, v);
        CHECK(r.size() == k && v.size() == k, "as many strings");
        for (int i = 0; i < k; i++) {
            int m = ref(op, s[i], n[i], d);
            str_check(r.at(i), d, m, "applied to every string");
            if (form) str_check(v.at(i), d, m, "the method changes the strings in place");
            else str_check(v.at(i), s[i], n[i], "the function leaves its argument alone");
        }
        __sym_cover("many end");
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(strip_many) { many(STRIP); }
HARNESS(upper_many) { many(UPPER); }
HARNESS(lower_many) { many(LOWER); }
// arrays in arrays and maps; views of arrays of strings, views of strings
HARNESS(containers) {
    long mk = __sym_leak_mark();
    {
        int op = num("op", 0, 2), form = num("form", 0, 2), kind = num("kind", 0, 3); char s[3][4], d[4]; int n[3] = {2, 3, 1};
        for (int i = 0; i < 3; i++) { for (int j = 0; j < n[i]; j++) s[i][j] = j == 1 ? 'b' : j == 2 ? ' ' : (char)__sym_bits("byte", 8); s[i][n[i]] = 0; }
        if (kind == 3) { // a window on a string: the letters in it, and no others
            if (op == STRIP) return;
            char t[] = "aZ??qQ"; t[2] = s[0][0]; t[3] = s[1][0]; var v(6, t), w = v.view({3}, 1); ref(op, t + 1, 3, d);
            if (form == 0) { var r = fun(op, w); CHECK(r.size() == 3, "size"); const char* p = r.str(); bool ok = true; for (int i = 0; i < 3; i++) ok &= p[i] == d[i]; CHECK(ok, "letters mapped and nothing else"); str_check(v, t, 6, "the function leaves its argument alone"); }
            else { if (form == 1) met(op, w); else { var u = v.view({3}, 1); fun2(op, w, u); } char x[] = "aZ??qQ"; for (int i = 0; i < 3; i++) x[1 + i] = d[i]; str_check(v, x, 6, "the letters in the window and no others"); }
            __sym_cover("containers end"); return;
        }
        var v, w; v.array();
        auto str = [&](int i) { return var(n[i], s[i]); };
        if (kind == 0) { var a; a.array(); a[0] = str(1); a[1] = str(2); v[0] = str(0); v[1] = a; w = v; }
        else if (kind == 1) { var m; m[var("k")] = str(1); m[var("z")] = str(2); v[0] = str(0); v[1] = m; w = v; }
        else { v[0] = "Ab "; v[1] = str(0); v[2] = str(1); v[3] = str(2); v[4] = "Ab "; w = v.view({3}, 1); }
        auto at = [&](const var& x, int i) { var q; if (kind == 2) q = x.at(i); else if (i == 0) q = x.at(0); else { var in; in = x.at(1); q = kind == 1 ? in.at(var(i == 1 ? "k" : "z")) : in.at(i - 1); } return q; };
        var r = form == 0 ? fun(op, w) : form == 1 ? met(op, w) : fun2(op, w, w);
        for (int i = 0; i < 3; i++) {
            int m = ref(op, s[i], n[i], d);
            str_check(at(r, i), d, m, "applied to every string");
            if (form) str_check(at(w, i), d, m, "the method changes the strings in place"); else str_check(at(w, i), s[i], n[i], "the function leaves its argument alone");
        }
        if (kind == 2) { str_check(v.at(0), "Ab ", 3, "outside the window"); str_check(v.at(4), "Ab ", 3, "outside the window"); }
        __sym_cover("containers end");
    }
    __sym_leak_check(mk, "storage");
}
// long strings around the capacity steps
HARNESS(long_) {
    static const int L[] = {1, 7, 8, 15, 16, 31, 32, 63};
    int op = num("op", 0, 2), a = num("lead", 0, 2), n = L[num("len", 0, 7)], b = num("trail", 0, 2), form = num("form", 0, 1);
    char s[80], d[80]; int k = 0;
    for (int i = 0; i < a; i++) s[k++] = '\t';
    for (int i = 0; i < n; i++) s[k++] = i == n / 2 && n > 2 ? ' ' : 'q';
    s[a] = (char)__sym_bits("first", 8);
    for (int i = 0; i < b; i++) s[k++] = '\n';
    s[k] = 0;
    var v(k, s), r = form ? met(op, v) : fun(op, v);
    int m = ref(op, s, k, d);
    str_check(r, d, m, "long string");
    if (form) str_check(v, d, m, "in place"); else str_check(v, s, k, "the function leaves its argument alone");
    __sym_cover("long end");
}
// long strings with one symbolic byte anywhere, and many white spaces
HARNESS(larger) {
    static const int L[] = {9, 17, 40, 65, 300, 1030}, Q[] = {0, 1, 7, 17, 300};
    int op = num("op", 0, 2), n = L[num("len", 0, 5)], a = Q[num("lead", 0, 4)], b = Q[num("trail", 0, 4)], form = num("form", 0, 3), at = num("place", 0, 3);
    char s[1700], d[1700]; int k = 0;
    for (int i = 0; i < a; i++) s[k++] = " \t\n\r\v\f"[i % 6];
    for (int i = 0; i < n; i++) s[k++] = i % 9 == 8 && i < n - 1 ? ' ' : "aZmQzAy0"[i & 7];
    for (int i = 0; i < b; i++) s[k++] = " \n\t"[i % 3];
    s[at == 0 ? a : at == 1 ? a + n - 1 : at == 2 ? a + n / 2 : k - 1] = (char)__sym_bits("byte", 8);
    s[k] = 0;
    var v(k, s), r, h = v;
    switch (form) {
    case 0: r = fun(op, v); break;
    case 1: r = met(op, v); break;
    case 2: { var o = "a previous value which is not short"; r = fun2(op, v, o); int m = ref(op, s, k, d); str_check(o, d, m, "output argument"); break; }
    case 3: r = fun2(op, v, v); break;
    }
    int m = ref(op, s, k, d);
    str_check(r, d, m, "long string");
    if (form & 1) { str_check(v, d, m, "in place"); str_check(h, d, m, "in place for every handle"); } else str_check(v, s, k, "the function leaves its argument alone");
    __sym_cover("larger end");
}
