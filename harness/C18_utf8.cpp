//! time_quick: 100
//! time_thorough: 800
//! bound: all byte strings of 0 to 5 bytes (thorough 6), all byte values; strings that used to be longer; 16 to 64 byte strings with a symbolic end; 127 to 1032 byte strings with two symbolic bytes
//! assume: a sequence is well formed when its lead byte is followed by the number of continuation bytes it announces
#include "common.h"

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
static int seq(unsigned char c) { return c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : c < 0xF8 ? 4 : 0; }
static int ref(const unsigned char* s, int n) {
    int c = 0;
    for (int i = 0; i < n; c++) {
        int l = seq(s[i]);
        if (!l || i + l > n) return -1;
        for (int k = 1; k < l; k++) if (s[i + k] < 0x80 || s[i + k] > 0xBF) return -1;
        i += l;
    }
    return c;
}
static void check_(var& v, const char* s, int n) {
    ind l = v.len();
    int want = ref((const unsigned char*)s, n);
    CHECK((bool)l == (want >= 0), "invalid exactly when some byte is out of place");
    if (want >= 0) CHECK((long)l == want, "number of code points");
    str_check(v, s, n, "counting leaves the string alone");
}
static void all(int n) {
    char s[8];
    for (int i = 0; i < n; i++) s[i] = (char)__sym_bits("byte", 8);
    s[n] = 0;
    var v(n, s);
    check_(v, s, n);
    __sym_cover("all end");
}
HARNESS(len012) { all(num("len", 0, 2)); }
HARNESS(len3) { all(3); }
HARNESS(len4) { all(4); }
HARNESS(len5) { all(5); }
HARNESS_T(len6) { all(6); }
// what lies behind the end of the string does not count
HARNESS(shortened) {
    int n = num("len", 2, 4), k = num("cut", 1, n - 1); char s[8];
    for (int i = 0; i < n; i++) s[i] = (char)__sym_bits("byte", 8);
    var v(n, s);
    switch (num("how", 0, 2)) {
    case 0: v.resize(k); break;
    case 1: while (v.size() > k) v.pop(); break;
    case 2: while (v.size() > k) v.remove(v.size() - 1); break;
    }
    check_(v, s, k);
    __sym_cover("shortened end");
}
// as an element of an array, and built byte by byte
HARNESS(pushed) {
    int n = num("len", 1, 3); char s[8]; var v = "", a;
    for (int i = 0; i < n; i++) { s[i] = (char)__sym_bits("byte", 8); v.push(s[i]); }
    s[n] = 0;
    check_(v, s, n);
    a[1] = v;
    ind l = a[1].len(); int want = ref((const unsigned char*)s, n);
    CHECK((bool)l == (want >= 0) && (want < 0 || (long)l == want), "length of an element");
    __sym_cover("pushed end");
}
HARNESS(at_capacity) {
    static const int L[] = {7, 8, 15, 16, 31, 32, 63, 64};
    int n = L[num("n", 0, 7)], k = num("end", 1, 3); char s[80];
    for (int i = 0; i < n; i++) s[i] = 'x';
    for (int i = 0; i < k; i++) s[n - k + i] = (char)__sym_bits("byte", 8);
    s[n] = 0;
    var v(n, s);
    check_(v, s, n);
    __sym_cover("capacity end");
}
// anything else counts its elements
HARNESS(other) {
    var a; int n = num("n", 1, 3); for (int i = 0; i < n; i++) a.push(i * 300);
    if (n == 1) a.array();
    CHECK((long)a.len() == n, "other arrays count their elements");
    __sym_cover("other end");
}

// long texts of all kinds of code points with two symbolic bytes next to each other
HARNESS(huge) {
    static const int N[] = {127, 257, 1030}; static const char* const C[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "z"};
    int n = N[num("n", 0, 2)], at = num("place", 0, 2), k = 0; static char s[1100];
    for (int i = 0; k < n; i++) for (const char* p = C[i % 5]; *p; ) s[k++] = *p++;
    at = at == 0 ? 3 : at == 1 ? n / 2 : k - 2;
    s[at] = (char)__sym_bits("byte", 8); s[at + 1] = (char)__sym_bits("byte", 8); s[k] = 0;
    var v(k, s); check_(v, s, k);
    __sym_cover("huge end");
}
