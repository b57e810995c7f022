//! time_quick: 150
//! time_thorough: 850
//! bound: every nesting of undefined, int, long, string, array and string-keyed map with up to 3 nodes (thorough 4; from 3 nodes on with digits in strings and keys and positive integers of 2 digits), strings and keys of up to 2 bytes (thorough 3) of any value but NUL, integers of up to 4 digits and the extremes of int and long, numeric arrays of up to 3 elements, chains of 5 containers; arrays, maps and strings of 9 to 100 elements with one symbolic; the text of every byte at every place of a string or key of 3
//! assume: map keys are distinct strings
#include "common.h"
#include <lube/data.h>

static int num(const char* n, int lo, int hi) { return (int)__sym_choice(n, lo, hi); }
// a value and what it is made of
enum { NIL, INT, LONG, STR, ARR, MAP, NUMS };
struct Node { int kind, n; long x[3]; char s[4]; Node* ch[3]; char key[3][4]; int kl[3]; };
// with the sign chosen first, which keeps the arithmetic simple
static long integer(long hi) { return num("negative", 0, 1) ? -__sym_range("int", 1, hi) : __sym_range("int", 0, hi); }
static Node pool[12]; static int used, budget; static bool simple;
static int bytes(char* s, const char* name, int lo, int hi) {
    int n = num("len", lo, hi);
    for (int i = 0; i < n; i++) s[i] = (char)__sym_range(name, -128, 127), __sym_assume(s[i] != 0);
    s[n] = 0;
    return n;
}
static Node* gen(int depth) {
    Node* p = &pool[used++]; budget--;
    int k = num("kind", 0, depth > 0 ? 6 : 4);
    p->kind = k < 4 ? k : k == 4 ? NUMS : k == 5 ? ARR : MAP; p->n = 0;
    switch (p->kind) {
    case INT: case LONG: p->x[0] = simple ? __sym_range("int", 10, 99) : integer(9999); break;
    case STR: if (simple) { p->n = num("len", 0, 1); p->s[0] = (char)__sym_range("byte", 0x30, 0x39); p->s[p->n] = 0; } else p->n = bytes(p->s, "byte", 0, 1); break;
    case NUMS: p->n = num("count", 0, 2); for (int i = 0; i < p->n; i++) p->x[i] = simple ? __sym_range("int", 0, 9) : integer(99); break;
    case ARR: case MAP:
        p->n = num("count", 0, budget < 2 ? budget : 2);
        for (int i = 0; i < p->n; i++) {
            if (p->kind == MAP) {
                if (simple) { p->kl[i] = 1; p->key[i][0] = (char)__sym_range("key", 0x30, 0x39); p->key[i][1] = 0; } else p->kl[i] = bytes(p->key[i], "key", i ? 1 : 0, 1);
                if (i) __sym_assume(p->kl[0] != p->kl[1] || p->key[0][0] != p->key[1][0]);
            }
            if (budget <= 0) { p->n = i; break; }
            p->ch[i] = gen(depth - 1);
        }
        break;
    }
    return p;
}
static var make(const Node* p) {
    var v;
    switch (p->kind) {
    case NIL: break;
    case INT: v = (int)p->x[0]; break;
    case LONG: v = p->x[0]; break;
    case STR: v = var(p->n, p->s); break;
    case NUMS: v = 0; v.array(); v.resize(p->n); for (int i = 0; i < p->n; i++) v[i] = (int)p->x[i]; break;
    case ARR: v.push("x"); v.pop(); for (int i = 0; i < p->n; i++) { v.resize(i + 1); v[i] = make(p->ch[i]); } break;
    case MAP: v[undefined()]; for (int i = 0; i < p->n; i++) v[var(p->kl[i], p->key[i])] = make(p->ch[i]); break;
    }
    return v;
}
// v is what p describes; integers of any integer type
static bool is_int(const var& v, long x) { return v.defined() && !v.heap() && (v.atype<int>() || v.atype<long>()) && v.cast<long>() == x; }
static void same(const var& v, const Node* p) {
    switch (p->kind) {
    case NIL: CHECK(!v.defined(), "undefined"); break;
    case INT: case LONG: CHECK(is_int(v, p->x[0]), "integer"); break;
    case STR: str_check(v, p->s, p->n, "string"); break;
    case NUMS:
        CHECK(v.defined() && v.heap() && !v.atype<char>() && v.size() == p->n, "array of numbers");
        for (int i = 0; i < p->n; i++) CHECK(is_int(v.at(i), p->x[i]), "number in an array");
        break;
    case ARR:
        CHECK(v.defined() && v.heap() && (int)v.atype() != TYPE_PAIR && !v.atype<char>() && v.size() == p->n, "array");
        for (int i = 0; i < p->n; i++) same(v.at(i), p->ch[i]);
        break;
    case MAP:
        CHECK(v.defined() && v.heap() && (int)v.atype() == TYPE_PAIR && v.size() == p->n, "map");
        for (int i = 0; i < p->n; i++) {
            var k(p->kl[i], p->key[i]);
            ind at = v.index(k);
            CHECK((bool)at, "key");
            if (at) { str_check(v.key(at), p->key[i], p->kl[i], "key"); same(v.at(at), p->ch[i]); }
        }
        break;
    }
}
static void trip(const Node* p) {
    long mk = __sym_leak_mark();
    {
        var v = make(p);
        same(v, p);
        varstream s;
        s << v << ",X";
        same(v, p);
        var w;
        s >> w;
        same(w, p);
        CHECK(s.get() == ',' && s.get() == 'X', "reading ends directly after the value");
        CHECK(s.get() == std::char_traits<char>::eof(), "nothing else was written");
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("trip end");
}
static void start(int b, bool s = false) { used = 0; budget = b; simple = s; }
HARNESS(scalar) { start(1); trip(gen(0)); }
HARNESS(nested2) { start(2); trip(gen(1)); }
HARNESS(nested3) { start(3, true); trip(gen(2)); }
HARNESS_T(nested4) { start(4, true); trip(gen(3)); }
// deep nesting, one element each
HARNESS(chain) {
    start(8); int d = num("depth", 1, 5); Node* p = 0;
    for (int i = 0; i < d; i++) {
        Node* q = &pool[used++]; q->kind = i == 0 ? STR : num("kind", ARR, MAP); q->n = 1;
        if (i == 0) { q->s[0] = (char)__sym_range("byte", 1, 127); q->s[1] = 0; }
        q->ch[0] = p; q->kl[0] = 1; q->key[0][0] = 'k'; q->key[0][1] = 0;
        p = q;
    }
    trip(p);
}
HARNESS(strings) { // longer strings: escapes next to each other
    start(1); Node* p = &pool[used++]; p->kind = STR; p->n = bytes(p->s, "byte", 2, THOROUGH ? 3 : 2); trip(p);
}
HARNESS(keys) {
    start(1); Node* p = &pool[used++]; p->kind = MAP; p->n = 1; p->kl[0] = bytes(p->key[0], "key", 0, 2);
    Node* q = &pool[used++]; q->kind = INT; q->x[0] = 5; p->ch[0] = q; trip(p);
}
HARNESS(map3) {
    start(1); Node* p = &pool[used++]; p->kind = MAP; p->n = 3;
    for (int i = 0; i < 3; i++) { p->kl[i] = 1; p->key[i][0] = (char)__sym_range("key", 'a', 'z'); p->key[i][1] = 0; Node* q = &pool[used++]; q->kind = INT; q->x[0] = i; p->ch[i] = q; }
    __sym_assume(p->key[0][0] != p->key[1][0] && p->key[0][0] != p->key[2][0] && p->key[1][0] != p->key[2][0]);
    trip(p);
}
HARNESS(numbers) {
    start(1); Node* p = &pool[used++]; p->kind = NUMS; p->n = num("count", 1, 3);
    for (int i = 0; i < p->n; i++) p->x[i] = __sym_range("int", -1, 1) * (i == 0 ? 7 : i == 1 ? 1000 : 123456);
    trip(p);
}
HARNESS(extremes) {
    static const long X[] = {2147483647L, -2147483648L, 9223372036854775807L, -9223372036854775807L - 1, 0, 10000, 99999, 1000000000L};
    start(1); Node* p = &pool[used++]; p->x[0] = X[num("which", 0, 7)];
    p->kind = p->x[0] >= -2147483648L && p->x[0] <= 2147483647L && num("long", 0, 1) == 0 ? INT : LONG;
    trip(p);
}
// larger: many elements, many keys, long strings
HARNESS(larger) {
    long mk = __sym_leak_mark();
    {
        int kind = num("kind", 0, 3), count = num("count", 0, 3), n = count == 3 ? 100 : 9 + count * 8, at = num("at", 0, 2) * (n - 1) / 2; long x = __sym_range("int", 10, 99);
        var v, w; char s[220], key[8] = "key00";
        auto nth = [&](int i) { return i == at ? x : (long)(i * 37 % 100); };
        if (kind == 0) { v = 0; v.array(); v.pop(); for (int i = 0; i < n; i++) v.push((int)nth(i)); }
        if (kind == 1) { v.push("x"); v.pop(); for (int i = 0; i < n; i++) { if (i % 3 == 1) { var t = "text"; v.push(t); } else v.push(nth(i)); } }
        if (kind == 2) for (int i = 0; i < n; i++) { key[3] = (char)('0' + i * 7 % n / 10); key[4] = (char)('0' + i * 7 % n % 10); v[key] = nth(i * 7 % n); }
        if (kind == 3) { for (int i = 0; i < 2 * n; i++) s[i] = i % 5 == 4 ? '"' : i % 7 == 6 ? '\n' : (char)('a' + i % 26); s[2 * at] = (char)x; v = var(2 * n, s); }
        varstream t; t << v << ",X"; t >> w;
        CHECK(t.get() == ',' && t.get() == 'X', "reading ends directly after the value");
        if (kind == 3) str_check(w, s, 2 * n, "string");
        else {
            CHECK(w.size() == n && ((int)w.atype() == TYPE_PAIR) == (kind == 2), "as many elements");
            for (int i = 0; i < n; i++) {
                if (kind == 1 && i % 3 == 1) { str_check(w.at(i), "text", 4, "string"); continue; }
                if (kind == 2) { key[3] = (char)('0' + i / 10); key[4] = (char)('0' + i % 10); str_check(w.key(i), key, 5, "key"); }
                CHECK(is_int(w.at(i), nth(i)), "number");
            }
        }
    }
    __sym_leak_check(mk, "storage");
    __sym_cover("larger end");
}
// numbers with a fraction of up to 6 digits
HARNESS(fractions) {
    static const double X[] = {0.5, -2.25, 1e10, 1.5e-5, 123.456, -0.125, 1e100, 3.25};
    int i = num("which", 0, 7), arr = num("array", 0, 2), f = num("float", 0, 1);
    if (i == 4 || i == 6 || i == 3 || i == 2) f = 0;
    var v = f ? var((float)X[i]) : var(X[i]), w, u;
    if (arr == 1) v.array();
    if (arr == 2) { v.push(v); }
    varstream s; s << v; s >> w;
    if (arr == 0) { CHECK(!w.heap() && w.atype<double>() && w.get<double>() == X[i], "fraction"); }
    else { CHECK(w.heap() && w.size() == arr, "array of fractions"); for (int k = 0; k < arr; k++) CHECK(w.at(k).cast<double>() == X[i], "fraction in an array"); }
    __sym_cover("fractions end");
}
// several values in one stream, one after another
HARNESS(sequence) {
    start(2, true); Node* p = gen(1); budget = 1; Node* q = gen(0);
    varstream s; s << make(p) << "\n" << make(q) << " ";
    var v, w; s >> v >> w;
    same(v, p); same(w, q);
    __sym_cover("sequence end");
}
// what is written is JSON: control characters, quotes and back slashes only as escapes, everything on its own
HARNESS(escaped) {
    unsigned char c = (unsigned char)__sym_range("byte", 1, 255); bool key = num("key", 0, 1); int at = num("at", 0, 2);
    char s[4] = {'a', 'b', 'c', 0}; s[at] = (char)c; var v; if (key) v[s] = 1; else v = s;
    varstream t; t << v; const char* p = t.str(); int n = (int)strlen(p), i = 0;
    while (i < n && p[i] != '"') i++;
    CHECK(i < n, "a string starts with a quote"); i += 1 + at;
    if (c < 0x20 || c == '"' || c == '\\') {
        CHECK(p[i] == '\\', "an escape starts with a back slash"); char e = p[i + 1]; i += 2;
        if (e == 'u') {
            int x = 0; for (int k = 0; k < 4; k++, i++) { char h = p[i]; bool d = h >= '0' && h <= '9', l = h >= 'a' && h <= 'f', u = h >= 'A' && h <= 'F'; CHECK(d | l | u, "hexadecimal digits"); x = x * 16 + (d ? h - '0' : l ? h - 'a' + 10 : h - 'A' + 10); }
            CHECK(x == c, "the code of the character");
        }
        else { static const char FROM[] = "\"\\/bfnrt", TO[] = "\"\\/\b\f\n\r\t"; bool ok = false; for (int k = 0; k < 8; k++) ok |= (e == FROM[k]) & ((char)c == TO[k]); CHECK(ok, "the escape of the character"); }
    }
    else { CHECK(p[i] == (char)c, "any other character is written as it is"); i++; }
    for (int k = at + 1; k < 3; k++, i++) CHECK(p[i] == s[k], "the characters after it");
    CHECK(p[i] == '"', "then the quote at the end");
    __sym_cover("escaped end");
}
