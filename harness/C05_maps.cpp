//! time_quick: 150
//! time_thorough: 800
//! max_instr: 40000000
//! bound: up to 4 insertions or overwrites (thorough 5) with keys unconstrained in value: int, long, char, double and float without NaN, strings of up to 2 symbolic bytes, arrays; look-ups with a further symbolic key; removal of any position; sizes up to 34 with a symbolic key added, and 129 and 200 with one symbolic place
//! assume: no key is NaN; an array used as a key is not modified afterwards
#include "common.h"

// keys of one type, with their order decided outside the library
struct Key { int t; long i; double d; char s[4]; int n; };
static var kv(const Key& k) {
    switch (k.t) {
    case TYPE_INT: return var((int)k.i);
    case TYPE_LONG: return var(k.i);
    case TYPE_CHAR: return var((char)k.i);
    case TYPE_DOUBLE: return var(k.d);
    case TYPE_FLOAT: return var((float)k.d);
    default: return var(k.n, k.s); // string
    }
}
static int kcmp(const Key& a, const Key& b) {
    if (a.t == TYPE_DOUBLE || a.t == TYPE_FLOAT) return a.d < b.d ? -1 : a.d > b.d ? 1 : 0;
    if (a.t != TYPE_ARRAY) return a.i < b.i ? -1 : a.i > b.i ? 1 : 0;
    for (int i = 0; i < a.n && i < b.n; i++)
        if (a.s[i] != b.s[i]) return a.s[i] < b.s[i] ? -1 : 1;
    return a.n - b.n;
}
static Key ksym(int t, const char* name, int len) {
    Key k; k.t = t; k.i = 0; k.d = 0; k.n = 0;
    switch (t) {
    case TYPE_INT: k.i = (int)__sym_bits(name, 32); break;
    case TYPE_LONG: k.i = (long)__sym_bits(name, 64); break;
    case TYPE_CHAR: k.i = (signed char)__sym_bits(name, 8); break;
    case TYPE_DOUBLE: k.d = d_of(__sym_bits(name, 64)); __sym_assume(k.d == k.d); break;
    case TYPE_FLOAT: k.d = f_of(__sym_bits(name, 32)); __sym_assume(k.d == k.d); break;
    default: k.n = len; for (int i = 0; i < len; i++) k.s[i] = (char)__sym_bits(name, 8); break;
    }
    return k;
}
// the type of the order of strings: char compares as signed or unsigned, which is not prescribed; take ASCII
static void ascii(const Key& k) { for (int i = 0; i < k.n; i++) __sym_assume(k.s[i] >= 0); }

struct Ref { Key k[6]; int v[6]; int n; Ref() : n(0) {}
    int find(const Key& x) const { for (int i = 0; i < n; i++) if (kcmp(k[i], x) == 0) return i; return -1; }
    void put(const Key& x, int v_) { int i = find(x); if (i < 0) { i = n++; k[i] = x; } v[i] = v_; }
    void del(int i) { for (; i + 1 < n; i++) { k[i] = k[i + 1]; v[i] = v[i + 1]; } n--; }
};
static void same(var& m, const Ref& r) {
    CHECK(m.size() == r.n, "a map holds each key once");
    CHECK(m.atype() == TYPE_PAIR, "a map stays a map");
    const var& c = m;
    for (int i = 0; i + 1 < r.n; i++) { CHECK(m.key(i) < m.key(i + 1), "keys in ascending order"); CHECK(!(m.key(i + 1) < m.key(i)), "keys in ascending order"); }
    for (int i = 0; i < r.n; i++) {
        var x; x = c.at(kv(r.k[i]));
        CHECK(x.defined(), "a key that was written is found");
        CHECK(x.type() == TYPE_INT && x.get<int>() == r.v[i], "a key has the value last written to it");
        ind p = m.index(kv(r.k[i]));
        CHECK((bool)p, "a key that was written is found by index()");
        CHECK(m.key(p) == kv(r.k[i]), "index() is the position of the key");
        var y; y = m[(int)p];
        CHECK(y.type() == TYPE_INT && y.get<int>() == r.v[i], "the value is at the position of its key");
    }
}
static void inserting(int t, int n, bool look) {
    long mk = __sym_leak_mark();
    {
        var m; Ref r;
        for (int i = 0; i < n; i++) {
            int len = t == TYPE_ARRAY ? (int)__sym_choice("len", THOROUGH || i ? 0 : 1, i == 0 || THOROUGH ? 2 : 1) : 0;
            Key k = ksym(t, "key", len); ascii(k);
            int v = (int)__sym_bits("val", 32);
            m[kv(k)] = v; r.put(k, v);
            var x; x = m[kv(k)];
            CHECK(x.type() == TYPE_INT && x.get<int>() == v, "the value just written is read back");
        }
        same(m, r);
        if (look) {
            Key q = ksym(t, "query", t == TYPE_ARRAY ? (int)__sym_choice("qlen", THOROUGH ? 0 : 1, 2) : 0); ascii(q);
            const var& c = m;
            int f = r.find(q);
            var x; x = c.at(kv(q));
            ind p = m.index(kv(q));
            if (f < 0) { CHECK(!x.defined(), "an absent key has no value"); CHECK(!p, "an absent key is not found"); __sym_cover("absent"); }
            else { CHECK(x.defined() && x.get<int>() == r.v[f], "a present key has its value"); CHECK((bool)p, "a present key is found"); __sym_cover("present"); }
            same(m, r);
        }
        __sym_cover("insert end");
    }
    __sym_leak_check(mk, "map storage");
}
HARNESS(ins_int) { inserting(TYPE_INT, 3 + THOROUGH, true); }
HARNESS(ins_long) { inserting(TYPE_LONG, 3, true); }
HARNESS(ins_char) { inserting(TYPE_CHAR, 3, true); }
HARNESS(ins_string) { inserting(TYPE_ARRAY, 3, true); }
HARNESS(ins_double) { inserting(TYPE_DOUBLE, 2 + THOROUGH, true); }
HARNESS(ins_float) { inserting(TYPE_FLOAT, 2 + THOROUGH, true); }
HARNESS(ins4_int) { inserting(TYPE_INT, 4 + THOROUGH, false); }

// sizes across the growth steps; the new key falls anywhere
HARNESS(sizes) {
    long mk = __sym_leak_mark();
    {
        static const int N[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34};
        int n = N[__sym_choice("n", 0, THOROUGH ? 15 : 11)];
        var m;
        for (int i = 0; i < n; i++) m[var(i * 7 % 37 * 10)] = i;
        int k = (int)__sym_range("key", -20, 400), v = (int)__sym_bits("val", 32);
        var x;
        bool had = false;
        for (int i = 0; i < n; i++) had |= i * 7 % 37 * 10 == k;
        m[var(k)] = v;
        CHECK(m.size() == n + !had, "a map holds each key once");
        for (int i = 0; i + 1 < m.size(); i++) CHECK(m.key(i).get<int>() < m.key(i + 1).get<int>(), "keys in ascending order");
        for (int i = 0; i < m.size(); i++) {
            int q = m.key(i).get<int>(), e = -1;
            for (int j = 0; j < n; j++) e = j * 7 % 37 * 10 == q ? j : e;
            if (q == k) e = v;
            else CHECK(e >= 0, "a key that was never written");
            x = m[i]; CHECK(x.get<int>() == e, "a key has the value last written to it");
        }
        x = m.at(var(k)); CHECK(x.get<int>() == v, "a key has the value last written to it");
        __sym_cover("sizes end");
    }
    __sym_leak_check(mk, "map storage");
}

// removal keeps keys with their values
HARNESS(removal) {
    long mk = __sym_leak_mark();
    {
        var m; Ref r;
        int n = (int)__sym_choice("n", 1, 4);
        for (int i = 0; i < n; i++) { Key k; k.t = TYPE_INT; k.i = (int)__sym_range("key", 10 * i, 10 * i + 9); int v = (int)__sym_bits("val", 32); m[kv(k)] = v; r.put(k, v); }
        int p = (int)__sym_choice("pos", 0, n - 1);
        var x;
        switch (__sym_choice("how", 0, 2)) {
        case 0: x = m.remove(p); CHECK(x.defined() && x.get<int>() == r.v[p], "remove returned another value"); r.del(p); break;
        case 1: x = m.pop(); CHECK(x.defined() && x.get<int>() == r.v[n - 1], "pop returned another value"); r.del(n - 1); break;
        case 2: m.resize(p); r.n = p; break;
        }
        same(m, r);
        Key k; k.t = TYPE_INT; k.i = (int)__sym_range("again", 0, 49); int v = 77;
        m[kv(k)] = v; r.put(k, v);
        same(m, r);
        __sym_cover("removal end");
    }
    __sym_leak_check(mk, "map storage");
}

// every operation on a map that is an element of an array or the value of another map
HARNESS(element) {
    long mk = __sym_leak_mark();
    {
        var c, twin; int where = (int)__sym_choice("container", 0, 2);
        if (where == 0) { c[1] = "other"; }
        else if (where == 1) c["other"] = 5;
        else { c[0] = undefined(); c[1] = undefined(); twin = c; }
        #define EL (where == 1 ? c["map"] : c[0])
        Ref r; int n = (int)__sym_choice("n", 1, THOROUGH ? 3 : 2);
        for (int i = 0; i < n; i++) { Key k = ksym(TYPE_INT, "key", 0); int v = (int)__sym_bits("val", 32); EL[kv(k)] = v; r.put(k, v); }
        var h = EL; same(h, r);
        Key q = ksym(TYPE_INT, "query", 0); int f = r.find(q);
        CHECK(EL.size() == r.n && (int)EL.atype() == TYPE_PAIR && EL.defined() && EL.type() == TYPE_ARRAY, "size and type of the element");
        ind p = EL.index(kv(q)); CHECK((bool)p == (f >= 0), "index() of the element");
        var x; x = EL.at(kv(q)); CHECK(x.defined() == (f >= 0) && (f < 0 || x.get<int>() == r.v[f]), "at() of the element");
        for (int i = 0; i < r.n; i++) { CHECK(EL.key(i) == h.key(i), "key() of the element"); var y; y = EL.at(i); CHECK(y.get<int>() == h.at(i).get<int>(), "at() a position of the element"); }
        int w = (int)__sym_bits("written", 32), pos = (int)__sym_choice("pos", 0, r.n - 1);
        switch (__sym_choice("how", 0, 4)) {
        case 0: EL[kv(q)] = w; r.put(q, w); break;
        case 1: x = EL.remove((int)h.index(kv(r.k[pos]))); CHECK(x.defined() && x.get<int>() == r.v[pos], "remove returned another value"); r.del(pos); break;
        case 2: x = EL.pop(); { int last = 0; for (int i = 1; i < r.n; i++) if (kcmp(r.k[i], r.k[last]) > 0) last = i; CHECK(x.get<int>() == r.v[last], "pop returned another value"); r.del(last); } break;
        case 3: { var d; d = EL.copy(); Ref s = r; d[kv(q)] = w; s.put(q, w); same(d, s); break; }
        case 4: EL.resize(0); r.n = 0; same(h, r); EL[kv(q)] = w; r.put(q, w); break;
        }
        same(h, r);
        if (where == 2) { var g = twin[0]; same(g, r); }
        var o = where == 1 ? c["other"] : c[1];
        CHECK(c.size() == 2 && (where == 0 ? str_eq(o, "other") : where == 1 ? o.get<int>() == 5 : !o.defined()), "the other element");
        #undef EL
        __sym_cover("element end");
    }
    __sym_leak_check(mk, "map storage");
}

// values of any kind, maps within maps, and the same map through another handle
HARNESS(nested) {
    long mk = __sym_leak_mark();
    {
        char a[2] = {(char)__sym_bits("a", 8), 0}, b[2] = {(char)__sym_bits("b", 8), 0};
        __sym_assume(a[0] > 0 && b[0] > 0);
        int u = (int)__sym_bits("u", 32), v = (int)__sym_bits("v", 32);
        var m; var h;
        m["sub"][a] = u;
        h = m["sub"];
        m["sub"][b] = v;
        m["str"] = "text";
        m["arr"][0] = 5; m["arr"][1] = 6;
        bool eq = a[0] == b[0];
        CHECK(m.size() == 3, "entries of the outer map");
        CHECK(h.size() == 2 - eq, "entries of the inner map");
        var x; x = h[a]; CHECK(x.get<int>() == (eq ? v : u), "inner entry");
        x = m["sub"][b]; CHECK(x.get<int>() == v, "inner entry");
        CHECK(str_eq(m.key(0), "arr") && str_eq(m.key(1), "str") && str_eq(m.key(2), "sub"), "keys of the outer map");
        x = m["str"]; CHECK(str_eq(x, "text"), "string entry");
        x = m["arr"]; CHECK(x.size() == 2, "array entry");
        m["sub"] = 9;
        x = m["sub"]; CHECK(x.type() == TYPE_INT && x.get<int>() == 9, "entry overwritten");
        CHECK(m.size() == 3, "entries of the outer map");
        CHECK(h.size() == 2 - eq, "the inner map lives on");
        __sym_cover("nested end");
    }
    __sym_leak_check(mk, "map storage");
}

// an undefined key adds nothing, nor do look-ups
HARNESS(nothing) {
    var m;
    m[undefined()];
    CHECK(m.defined() && m.size() == 0 && m.atype() == TYPE_PAIR, "indexing with nothing makes an empty map");
    int n = (int)__sym_choice("n", 0, 2);
    Key k[2]; Ref r;
    for (int i = 0; i < n; i++) { k[i] = ksym(TYPE_INT, "key", 0); m[kv(k[i])] = i; r.put(k[i], i); }
    m[undefined()];
    same(m, r);
    Key q = ksym(TYPE_INT, "query", 0); __sym_assume(r.find(q) < 0);
    const var& c = m;
    CHECK(!c.at(kv(q)).defined(), "an absent key has no value");
    CHECK(!m.index(kv(q)), "an absent key is not found");
    same(m, r);
    var e; e = c.at(undefined());
    CHECK(!e.defined(), "no key, no value");
    same(m, r);
    // a key may be stored without a value
    m[kv(q)];
    CHECK(m.size() == r.n + 1, "a key without a value");
    CHECK(!c.at(kv(q)).defined(), "a key without a value has none");
    CHECK((bool)m.index(kv(q)), "a key without a value is there");
    __sym_cover("nothing end");
}

// keys of different kinds in one map
static var mixed(int kind, int x) {
    switch (kind) {
    case 0: return var(x);
    case 1: { char s[2] = {(char)x, 0}; return var(1, s); }
    case 2: return var((double)x);
    case 3: { var a = x; a.push(2); return a; }
    case 4: return var((long)x);
    default: return var(cdouble(x, 1));
    }
}
HARNESS(mixed) {
    long mk = __sym_leak_mark();
    {
        enum { N = THOROUGH ? 3 : 2 };
        int kind[N]; signed char x[N]; int val[N];
        var m;
        int distinct = 0; bool last[N]; for (int i = 0; i < N; i++) last[i] = true;
        for (int i = 0; i < N; i++) {
            kind[i] = (int)__sym_choice("kind", 0, 5); x[i] = (signed char)__sym_bits("key", 8); val[i] = i + 50;
            if (kind[i] == 1) __sym_assume(x[i] > 0);
            bool neu = true;
            for (int j = 0; j < i; j++) if (kind[j] == kind[i] && x[j] == x[i]) { neu = false; last[j] = false; }
            distinct += neu;
            m[mixed(kind[i], x[i])] = val[i];
        }
        CHECK(m.size() == distinct, "a map holds each key once");
        for (int i = 0; i + 1 < distinct; i++) CHECK(m.key(i) < m.key(i + 1), "keys in ascending order");
        for (int i = 0; i < N; i++) if (last[i]) {
            var y; y = m.at(mixed(kind[i], x[i]));
            CHECK(y.defined() && y.get<int>() == val[i], "a key has the value last written to it");
        }
        __sym_cover("mixed end");
    }
    __sym_leak_check(mk, "map storage");
}
// hundreds of entries: the symbolic key falls anywhere in a window of them
HARNESS(huge) {
    static const int N[] = {129, 200};
    long mk = __sym_leak_mark();
    {
        int n = N[__sym_choice("n", 0, 1)], str = (int)__sym_choice("strings", 0, 1), w = (int)__sym_choice("window", 0, 2) * (n / 2 - 4), op = (int)__sym_choice("op", 0, 2);
        auto name = [&](int i) { char s[4] = {(char)('0' + i / 100), (char)('0' + i / 10 % 10), (char)('0' + i % 10), 0}; return str ? var(s) : var(i * 10); };
        var m, x; for (int j = 0; j < n; j++) { int i = (int)(j * 71L % n); m[name(i)] = i; }
        auto order = [&](int from, int to, int d) { bool ok = true; for (int i = from; i < to; i++) { var k = name(i - d); ok &= m.key(i) == k; x = m[i]; ok &= x.get<int>() == i - d; ind at = m.index(k); ok &= (long)at == i; } CHECK(ok, "keys in ascending order, with their values"); };
        CHECK(m.size() == n, "number of entries"); order(0, n, 0);
        int v = (int)__sym_bits("val", 32);
        if (op == 0) { // a new or another key
            if (str) {
                char s[5] = {(char)('0' + (w + 3) / 100), (char)('0' + (w + 3) / 10 % 10), (char)('0' + (w + 3) % 10), (char)__sym_range("char", 1, 127), 0}; var k = s;
                CHECK(!m.index(k), "no such key"); m[k] = v;
                CHECK(m.size() == n + 1, "a map holds each key once"); order(0, w + 4, 0); order(w + 5, n + 1, 1);
                x = m.at(k); CHECK(x.get<int>() == v, "a key has the value last written to it"); CHECK(m.key(w + 4) == k, "key");
            } else {
                int k = (int)__sym_range("key", w * 10 + 25, w * 10 + 35); m[var(k)] = v; bool had = __sym_concretize(k == w * 10 + 30);
                CHECK(m.size() == n + !had, "a map holds each key once"); order(0, w + 3, 0); order(w + 4 + !had, n + !had, !had);
                x = m.at(var(k)); CHECK(x.get<int>() == v, "a key has the value last written to it");
            }
        } else if (op == 1) { int at = w + 4; m[name(at)] = v; CHECK(m.size() == n, "a map holds each key once"); x = m.at(name(at)); CHECK(x.get<int>() == v, "a key has the value last written to it"); order(0, at, 0); order(at + 1, n, 0); }
        else { int at = w + 4; x = m.remove(at); CHECK(x.get<int>() == at && m.size() == n - 1, "remove"); order(0, at, 0); order(at, n - 1, -1); CHECK(!m.index(name(at)), "gone"); }
        __sym_cover("huge end");
    }
    __sym_leak_check(mk, "map storage");
}
