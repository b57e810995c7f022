//! time_quick: 120
//! time_thorough: 800
//! bound: strings of 0 to 4 bytes (thorough 5) over the bytes 1 to 127, strings of 12 to 42 bytes with one symbolic, as a single string, arrays of up to 3 strings and values of a map; patterns "b", "ab", "a.c", "b(a*)c", "(a)(b+)", "a+", "(.)(x?)"; replacements of 0 to 3 bytes
//! assume: the expression engine (Boost) is replaced by a small one in the symbolic run; replays use Boost; no embedded NUL
#include "common.h"

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
enum { N = THOROUGH ? 5 : 4 };
static const char* const PAT[] = {"b", "ab", "a.c", "b(a*)c", "(a)(b+)", "a+", "(.)(x?)"};
static const int GROUPS[] = {0, 0, 0, 1, 2, 0, 2};
// does s[p, e) match pattern k as a whole?  if so, where are its groups
static bool fits(int k, const char* s, int p, int e, int g[2][2]) {
    int n = e - p; s += p;
    switch (k) {
    case 0: return n == 1 && s[0] == 'b';
    case 1: return n == 2 && (s[0] == 'a') & (s[1] == 'b');
    case 2: return n == 3 && (s[0] == 'a') & (s[2] == 'c');
    case 3: {
        if (n < 2) return false;
        bool ok = (s[0] == 'b') & (s[n - 1] == 'c');
        for (int i = 1; i + 1 < n; i++) ok &= s[i] == 'a';
        g[0][0] = p + 1; g[0][1] = e - 1;
        return ok;
    }
    case 4: {
        if (n < 2) return false;
        bool ok = s[0] == 'a';
        for (int i = 1; i < n; i++) ok &= s[i] == 'b';
        g[0][0] = p; g[0][1] = p + 1; g[1][0] = p + 1; g[1][1] = e;
        return ok;
    }
    case 5: {
        if (n < 1) return false;
        bool ok = true;
        for (int i = 0; i < n; i++) ok &= s[i] == 'a';
        return ok;
    }
    case 6:
        g[0][0] = p; g[0][1] = p + 1; g[1][0] = p + 1; g[1][1] = e;
        return n == 1 || (n == 2 && s[1] == 'x');
    }
    return false;
}
// the leftmost, then longest match from position `from`
static bool find(int k, const char* s, int n, int from, int& p, int& e, int g[2][2]) {
    for (p = from; p <= n; p++)
        for (e = n; e > p; e--) if (fits(k, s, p, e, g)) return true;
    return false;
}
static int str_(char* s, int lo, int hi) {
    int n = num("len", lo, hi);
    for (int i = 0; i < n; i++) s[i] = (char)__sym_range("byte", 1, 127);
    s[n] = 0;
    return n;
}
static void result(const var& r, bool found, int k, const char* s, int p, int e, int g[2][2]) {
    if (!found) { CHECK(!r.defined(), "undefined when there is no match"); return; }
    CHECK(r.defined() && r.size() == 1 + GROUPS[k], "the match and its groups");
    if (r.defined() && r.size() == 1 + GROUPS[k]) {
        str_check(r.at(0), s + p, e - p, "the whole match");
        for (int i = 0; i < GROUPS[k]; i++) str_check(r.at(1 + i), s + g[i][0], g[i][1] - g[i][0], "the groups in order");
    }
}
HARNESS(search) {
    int k = num("pattern", 0, 6); char s[8]; int n = str_(s, 0, N), p, e, g[2][2];
    var v(n, s), pat = PAT[k];
    bool f = find(k, s, n, 0, p, e, g);
    var r = v.search(pat);
    result(r, f, k, s, p, e, g);
    str_check(v, s, n, "searching leaves the string alone");
    CHECK(str_eq(pat, PAT[k]), "searching leaves the expression alone");
    __sym_cover("search end");
}
HARNESS(match) {
    int k = num("pattern", 0, 6); char s[8]; int n = str_(s, 0, N), g[2][2];
    var v(n, s);
    bool f = n > 0 && fits(k, s, 0, n, g);
    var r = v.match(PAT[k]);
    result(r, f, k, s, 0, n, g);
    str_check(v, s, n, "matching leaves the string alone");
    __sym_cover("match end");
}
static int replaced(int k, const char* s, int n, const char* to, int m, char* out) {
    int o = 0, pos = 0, p, e, g[2][2];
    while (find(k, s, n, pos, p, e, g)) {
        for (int i = pos; i < p; i++) out[o++] = s[i];
        for (int i = 0; i < m; i++) out[o++] = to[i];
        pos = e;
    }
    for (int i = pos; i < n; i++) out[o++] = s[i];
    return o;
}
HARNESS(replace) {
    int k = num("pattern", 0, 5); char s[8], to[4], out[40]; int n = str_(s, 0, N), m = num("tolen", 0, 3);
    for (int i = 0; i < m; i++) { to[i] = (char)__sym_range("to", 'A', 'z'); __sym_assume(to[i] != '\\'); }
    to[m] = 0;
    var v(n, s), t(m, to);
    int o = replaced(k, s, n, to, m, out);
    var r = v.replace(PAT[k], t);
    str_check(v, out, o, "every match is replaced in the string");
    str_check(r, out, o, "the changed string is returned");
    str_check(t, to, m, "the replacement is left alone");
    __sym_cover("replace end");
}
HARNESS(larger) {
    static const char* const W[] = {"ab", "b", "c", "aac", "xabb", "abc", "baac", "aa", " "};
    int k = num("pattern", 0, 5), words = 6 + num("words", 0, 2) * 6, at = num("at", 0, 2), seed = num("seed", 0, 2), what = num("what", 0, 2), n = 0, g[2][2], p, e; char s[120], out[300];
    for (int i = 0; i < words; i++) { const char* w = W[(i * (seed + 2) + seed) % 9]; while (*w) s[n++] = *w++; }
    s[at * (n - 1) / 2] = (char)__sym_range("byte", 'a', 'c'); s[n] = 0;
    var v(n, s);
    if (what == 0) { int o = replaced(k, s, n, "<>", 2, out); var r = v.replace(PAT[k], "<>"); str_check(v, out, o, "every match is replaced in the string"); }
    else if (what == 1) { bool f = find(k, s, n, 0, p, e, g); result(v.search(PAT[k]), f, k, s, p, e, g); str_check(v, s, n, "searching leaves the string alone"); }
    else { bool f = fits(k, s, 0, n, g); result(v.match(PAT[k]), f, k, s, 0, n, g); str_check(v, s, n, "matching leaves the string alone"); }
    __sym_cover("larger end");
}
// all apply to every string of an array, nested or not, and to the values of a map
HARNESS(arrays) {
    int k = num("pattern", 0, 5), n = num("n", 1, 2), what = num("what", 0, 2), kind = num("kind", 0, 2); char s[3][4]; int l[3]; var v; int p, e, g[2][2];
    if (kind != 1) { v.push("x"); v.pop(); }
    static const char* const key[] = {"k", "l"};
    for (int i = 0; i < n; i++) {
        l[i] = str_(s[i], i ? 1 : 2, 2);
        var x(l[i], s[i]);
        if (kind == 0) v.push(x); else if (kind == 1) v[key[i]] = x; else { var y; y.push("x"); y.pop(); y.push(x); v.push(y); }
    }
    var r;
    switch (what) {
    case 0: r = v.search(PAT[k]); break;
    case 1: r = v.match(PAT[k]); break;
    case 2: r = v.replace(PAT[k], "ZZ"); break;
    }
    CHECK(r.size() == n && v.size() == n, "one result for each string");
    for (int i = 0; i < n; i++) {
        var q = r.at(i), old = v.at(i);
        if (kind == 2) { var a = q.at(0), b = old.at(0); q = a; old = b; }
        if (what == 2) {
            char out[16]; int o = replaced(k, s[i], l[i], "ZZ", 2, out);
            str_check(q, out, o, "replaced in each string"); str_check(old, out, o, "replaced in place");
        } else {
            bool f = what == 0 ? find(k, s[i], l[i], 0, p, e, g) : fits(k, s[i], p = 0, e = l[i], g);
            result(q, f, k, s[i], p, e, g);
            str_check(old, s[i], l[i], "the strings of the array are left alone");
        }
        if (kind == 1) CHECK(str_eq(v.key(i), key[i]), "keys stay");
    }
    __sym_cover("arrays end");
}
// another handle on the string sees the replacement, a copy does not
HARNESS(handles) {
    char s[8]; int n = str_(s, 1, 3); char out[16];
    var v(n, s), h = v, c = v.copy();
    int o = replaced(0, s, n, "QR", 2, out);
    v.replace("b", "QR");
    str_check(v, out, o, "replaced");
    str_check(c, s, n, "a copy is independent");
    __sym_cover("handles end");
}
// what is not a string is refused
HARNESS(refused) {
    var v = num("type", 0, 1) ? var(1.5) : var(3), a; a.push(1); a.push(2);
    int what = num("what", 0, 2);
    CHECK(throws([&] { if (what == 0) v.search("a"); else if (what == 1) v.match("a"); else v.replace("a", "b"); }), "a number has no text");
    CHECK(throws([&] { if (what == 0) a.search("a"); else if (what == 1) a.match("a"); else a.replace("a", "b"); }), "an array of numbers has no text");
    __sym_cover("refused end");
}
