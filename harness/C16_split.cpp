//! time_quick: 120
//! time_thorough: 800
//! bound: all strings of 0 to 4 bytes (thorough 5) without NUL, separators of 1 to 3 symbolic bytes, limits 0 to 4; joining up to 4 pieces; separators occurring in, next to and overlapping themselves; 7 to 300 pieces or words with one symbolic byte
//! assume: no NUL bytes
#include "common.h"

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static void text(char* s, int n, const char* name) { for (int i = 0; i < n; i++) { s[i] = (char)__sym_bits(name, 8); __sym_assume(s[i] != 0); } s[n] = 0; }
static bool is_at(const char* s, int n, int i, const char* sep, int m) {
    if (i + m > n) return false;
    bool r = true;
    for (int k = 0; k < m; k++) r &= s[i + k] == sep[k];
    return r;
}
// pieces between the occurrences found from the left
struct Pieces { int b[8], e[8], n; };
static void ref_split(const char* s, int n, const char* sep, int m, int max, Pieces& p) {
    int b = 0, i = 0; p.n = 0;
    while (i + m <= n && (max == 0 || p.n < max - 1)) {
        if (is_at(s, n, i, sep, m)) { p.b[p.n] = b; p.e[p.n] = i; p.n++; i += m; b = i; } else i++;
    }
    p.b[p.n] = b; p.e[p.n] = n; p.n++;
}
static void splitting(int n, int m, int max) {
    long mk = __sym_leak_mark();
    {
        char s[8], sep[4]; text(s, n, "byte"); text(sep, m, "sep");
        var v(n, s), r = v.split(sep, max);
        Pieces p; ref_split(s, n, sep, m, max, p);
        str_check(v, s, n, "splitting leaves the string alone");
        CHECK(r.size() == p.n && (int)r.atype() == TYPE_VAR, "number of pieces");
        if (max) CHECK(r.size() <= max, "a limit bounds the number of pieces");
        for (int i = 0; i < p.n; i++) str_check(r.at(i), s + p.b[i], p.e[i] - p.b[i], "the pieces between the separators");
        str_check(r.join(sep), s, n, "joining the pieces gives back the string");
        CHECK(r.size() == p.n, "joining leaves the pieces alone");
        for (int i = 0; i < p.n; i++) str_check(r.at(i), s + p.b[i], p.e[i] - p.b[i], "joining leaves the pieces alone");
        if (!max) for (int i = 0; i < p.n; i++) for (int k = p.b[i]; k < p.e[i]; k++) CHECK(!is_at(s, p.e[i], k, sep, m), "no piece contains the separator");
        __sym_cover("split end");
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(sep1) { splitting(num("len", 0, 4 + THOROUGH), 1, 0); }
HARNESS(sep2) { splitting(num("len", 0, 4 + THOROUGH), 2, 0); }
HARNESS(sep3) { splitting(num("len", 2, 4 + THOROUGH), 3, 0); }
HARNESS(limited) { splitting(num("len", 0, 3 + THOROUGH), num("seplen", 1, 2), num("limit", 1, 4)); }
// pieces from a string that really has separators
HARNESS(joining) {
    long mk = __sym_leak_mark();
    {
        int k = num("pieces", 1, 3), m = num("seplen", 0, 2); char sep[4], b[3][4], all[16]; int n[3], t = 0;
        text(sep, m, "sep");
        var v;
        for (int i = 0; i < k; i++) { n[i] = num("len", 0, 2); text(b[i], n[i], "byte"); var x(n[i], b[i]); v.push(x); }
        if (k == 1) { var x = v; v = undefined(); v[0] = x.at(0); }
        for (int i = 0; i < k; i++) { if (i) for (int j = 0; j < m; j++) all[t++] = sep[j]; for (int j = 0; j < n[i]; j++) all[t++] = b[i][j]; }
        var r = v.join(sep);
        str_check(r, all, t, "joined string");
        CHECK(v.size() == k, "joining leaves the pieces alone");
        for (int i = 0; i < k; i++) str_check(v.at(i), b[i], n[i], "joining leaves the pieces alone");
        r.push('!');
        for (int i = 0; i < k; i++) str_check(v.at(i), b[i], n[i], "the joined string is a new one");
        __sym_cover("join end");
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(empty_sep) {
    char s[4]; int n = num("len", 0, 2); text(s, n, "byte"); var v(n, s);
    CHECK(throws([&] { v.split("", num("limit", 0, 2)); }), "an empty separator is refused");
    str_check(v, s, n, "splitting leaves the string alone");
    str_check(v.join("x"), s, n, "joining a string gives the string");
    __sym_cover("empty end");
}
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// white space
static void white(int n, int max) {
    long mk = __sym_leak_mark();
    {
        char s[8]; text(s, n, "byte");
        var v(n, s), r = v.split(max);
        Pieces p; p.n = 0;
        for (int i = 0; i < n;) {
            if (space(s[i])) { i++; continue; }
            int b = i;
            if (max && p.n >= max - 1) i = n; else while (i < n && !space(s[i])) i++;
            p.b[p.n] = b; p.e[p.n] = i; p.n++;
        }
        CHECK(r.size() == p.n, "one piece for each run of other characters");
        for (int i = 0; i < p.n; i++) str_check(r.at(i), s + p.b[i], p.e[i] - p.b[i], "the runs of other characters");
        str_check(v, s, n, "splitting leaves the string alone");
        __sym_cover("white end");
    }
    __sym_leak_check(mk, "storage");
}
HARNESS(white_all) { white(num("len", 0, 4 + THOROUGH), 0); }
HARNESS(white_max) { white(num("len", 0, 3 + THOROUGH), num("limit", 1, 3)); }
// long pieces, across the capacity steps
HARNESS(long_) {
    static const int L[] = {7, 8, 15, 16, 31, 33, 63, 64, 300, 1030};
    int a = L[num("a", 0, 9)], b = L[num("b", 0, 9)], n = 0; char s[2100], sep[3]; text(sep, 2, "sep");
    __sym_assume((sep[0] != 'a') & (sep[1] != 'a') & (sep[0] != 'b') & (sep[1] != 'b'));
    for (int i = 0; i < a; i++) s[n++] = 'a';
    s[n++] = sep[0]; s[n++] = sep[1];
    for (int i = 0; i < b; i++) s[n++] = 'b';
    s[n] = 0;
    var v(n, s), r = v.split(sep);
    CHECK(r.size() == 2, "number of pieces");
    str_check(r.at(0), s, a, "first piece"); str_check(r.at(1), s + a + 2, b, "second piece");
    str_check(r.join(sep), s, n, "joining the pieces gives back the string");
    __sym_cover("long end");
}
// many pieces, across the capacity steps; one byte of one piece and of the separator symbolic
HARNESS(many) {
    static const int N[] = {7, 8, 9, 15, 16, 17, 33, 130, 300};
    int n = N[num("pieces", 0, 8)], m = num("seplen", 1, 2), k = n - 1 - num("piece", 0, 2) * (n / 3), t = 0;
    int max = num("limit", 0, 3); max = max == 0 ? 0 : max == 1 ? n / 2 : max == 2 ? n : n + 1;
    char s[2400], sep[4]; int b[310], e[310];
    if (n > 100) { sep[0] = ';'; sep[1] = ' '; sep[m] = 0; } else text(sep, m, "sep");
    char c = (char)__sym_bits("byte", 8); __sym_assume(c != 0);
    for (int i = 0; i < m; i++) __sym_assume((c != sep[i]) & (sep[i] != 'p') & (sep[i] != 'q'));
    for (int i = 0; i < n; i++) {
        if (i) for (int j = 0; j < m; j++) s[t++] = sep[j];
        b[i] = t; for (int j = 0; j < i % 4; j++) s[t++] = j & 1 ? 'p' : 'q';
        if (i == k) s[t++] = c;
        e[i] = t;
    }
    s[t] = 0;
    var v(t, s), r = v.split(sep, max);
    int w = max && max < n ? max : n;
    CHECK(r.size() == w, "number of pieces");
    for (int i = 0; i < w; i++) { int to = i == w - 1 ? t : e[i]; str_check(r.at(i), s + b[i], to - b[i], "the pieces between the separators"); }
    str_check(r.join(sep), s, t, "joining the pieces gives back the string");
    str_check(v, s, t, "splitting leaves the string alone");
    __sym_cover("many end");
}
// many words
HARNESS(many_white) {
    static const int N[] = {7, 8, 9, 15, 16, 17, 33, 130, 300}; static const char W[] = {' ', '\t', '\n', '\r'};
    int n = N[num("words", 0, 8)], k = n - 1 - num("word", 0, 2) * (n / 3), t = 0, ends = num("ends", 0, 1), max = num("limit", 0, 1) ? n / 2 : 0;
    char s[2400]; int b[310], e[310];
    char c = (char)__sym_bits("byte", 8), g = (char)__sym_bits("gap", 8); __sym_assume((c != 0) & !space(c) & space(g));
    if (ends) s[t++] = '\n';
    for (int i = 0; i < n; i++) {
        if (i) { s[t++] = i == k ? g : W[i & 3]; if (i % 3 == 0) s[t++] = ' '; }
        b[i] = t; for (int j = 0; j < 1 + i % 3; j++) s[t++] = j & 1 ? 'p' : 'q';
        if (i == k) s[t++] = c;
        e[i] = t;
    }
    if (ends) s[t++] = ' ';
    s[t] = 0;
    var v(t, s), r = v.split(max);
    int w = max ? max : n;
    CHECK(r.size() == w, "one piece for each run of other characters");
    for (int i = 0; i < w; i++) { int to = max && i == w - 1 ? t : e[i]; str_check(r.at(i), s + b[i], to - b[i], "the runs of other characters"); }
    __sym_cover("many white end");
}
