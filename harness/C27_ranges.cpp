//! time_quick: 100
//! time_thorough: 600
//! bound: index values: all 64 bits; ranges of char, int, long, float and double from any bounds (floating point: whole numbers and halves) with at most 6 elements (thorough 12) and steps 1 to 4; 7 to 65 elements from a symbolic bound
//! assume: bounds and steps of a range have one type, and counting past the upper bound does not overflow it
#include "common.h"

HARNESS(ind_class) {
    long a = (long)__sym_bits("a", 64);
    ind x = (intptr_t)a;
    CHECK((bool)x == (a >= 0), "true exactly when not negative");
    CHECK((intptr_t)x == a, "holds its value");
    if (a != INT64_MAX) {
        ind y = ~x;
        CHECK((intptr_t)y == -(a + 1) && (intptr_t)y == ~a, "complement");
        CHECK((bool)y == (a < 0), "complement changes the sign");
        if (a != INT64_MIN) CHECK((intptr_t)~y == a, "complement is its own inverse");
        ind z = x; ++z; CHECK((intptr_t)z == a + 1, "increment");
        ind w = x; ind v = w++; CHECK((intptr_t)v == a && (intptr_t)w == a + 1, "increment after use");
    }
    if (a != INT64_MIN) {
        ind z = x; --z; CHECK((intptr_t)z == a - 1, "decrement");
        ind w = x; ind v = w--; CHECK((intptr_t)v == a && (intptr_t)w == a - 1, "decrement after use");
    }
    CHECK((intptr_t)x == a, "operators leave their argument alone");
    CHECK((intptr_t)ind() == 0 && (bool)ind(), "the default is 0, which is true");
    __sym_cover("ind end");
}
enum { MAXN = THOROUGH ? 12 : 6 };
// the range lo, lo+st, ... below hi (or including it): integers
template <class T> static void ints(int type, bool incl) {
    T lo, hi; int st;
    lo = (T)__sym_bits("lo", 8 * sizeof(T)); hi = (T)__sym_bits("hi", 8 * sizeof(T));
    st = (int)__sym_range("step", 1, 4);
    const long LIM = sizeof(T) == 1 ? 127 : sizeof(T) == 4 ? 2147483647L : 9223372036854775807L;
    __sym_assume((long)hi <= LIM - st);
    // at most MAXN elements
    unsigned long d = (unsigned long)(long)hi - (unsigned long)(long)lo;
    __sym_assume((lo > hi) | (d <= (unsigned long)(MAXN - 1)));
    T l0 = lo, h0 = hi; T s = (T)st;
    var vl = lo, vh = hi, vs = s;
    var r = incl ? range(vl, vh, vs) : irange(vl, vh, vs);
    int n = 0;
    for (; n <= MAXN; n++) { long x = (long)((unsigned long)(long)l0 + (unsigned long)n * st); if (l0 > h0 || (incl ? x > (long)h0 : x >= (long)h0)) break; }
    if (n == 0) { CHECK(!r.defined() || r.size() == 0, "no elements"); }
    else {
        CHECK(r.size() == n, "number of elements");
        for (int i = 0; i < n; i++) CHECK((int)r.at(i).atype() == type && r.at(i).get<T>() == (T)(l0 + (T)(i * st)), "element of the range");
    }
    CHECK(vl.get<T>() == l0 && vh.get<T>() == h0 && vs.get<T>() == s, "arguments are left alone");
    __sym_cover("ints end");
}
HARNESS(ints_char) { ints<char>(TYPE_CHAR, __sym_choice("incl", 0, 1)); }
HARNESS(ints_int) { ints<int>(TYPE_INT, __sym_choice("incl", 0, 1)); }
HARNESS(ints_long) { ints<long>(TYPE_LONG, __sym_choice("incl", 0, 1)); }
// floating point: multiples of one half, which are exact
template <class T> static void reals(int type, bool incl) {
    int lo = (int)__sym_range("lo", -40, 40), hi = (int)__sym_range("hi", -40, 40), st = (int)__sym_choice("step", 1, 4);
    __sym_assume(hi - lo < MAXN);
    var vl = (T)lo * (T)0.5, vh = (T)hi * (T)0.5, vs = (T)st * (T)0.5;
    var r = incl ? range(vl, vh, vs) : irange(vl, vh, vs);
    int n = 0;
    for (; n <= MAXN; n++) { int x = lo + n * st; if (incl ? x > hi : x >= hi) break; }
    if (n == 0) CHECK(!r.defined() || r.size() == 0, "no elements");
    else {
        CHECK(r.size() == n, "number of elements");
        for (int i = 0; i < n; i++) CHECK((int)r.at(i).atype() == type && r.at(i).get<T>() == (T)(lo + i * st) * (T)0.5, "element of the range");
    }
    __sym_cover("reals end");
}
HARNESS_T(reals_float) { reals<float>(TYPE_FLOAT, __sym_choice("incl", 0, 1)); }
HARNESS_T(reals_double) { reals<double>(TYPE_DOUBLE, __sym_choice("incl", 0, 1)); }
// whole numbers in floating point
template <class T> static void whole(int type, bool incl) {
    int lo = (int)__sym_range("lo", -100, 100), hi = (int)__sym_range("hi", -100, 100), st = (int)__sym_range("step", 1, 4);
    __sym_assume(hi - lo < MAXN);
    var r = incl ? range((T)lo, (T)hi, (T)st) : irange((T)lo, (T)hi, (T)st);
    int n = 0;
    for (; n <= MAXN; n++) { int x = lo + n * st; if (incl ? x > hi : x >= hi) break; }
    if (n == 0) CHECK(!r.defined() || r.size() == 0, "no elements");
    else {
        CHECK(r.size() == n, "number of elements");
        for (int i = 0; i < n; i++) CHECK((int)r.at(i).atype() == type && r.at(i).get<T>() == (T)(lo + i * st), "element of the range");
    }
    __sym_cover("whole end");
}
HARNESS(whole_float) { whole<float>(TYPE_FLOAT, __sym_choice("incl", 0, 1)); }
HARNESS(whole_double) { whole<double>(TYPE_DOUBLE, __sym_choice("incl", 0, 1)); }
// default steps and lower bounds
HARNESS(defaults) {
    int which = (int)__sym_choice("form", 0, 3), t = (int)__sym_choice("type", 0, 3);
    int lo = which & 1 ? (int)__sym_range("lo", -1000, 1000) : (which & 2) ? 1 : 0, hi = (int)__sym_range("hi", -1000, 1000);
    __sym_assume(hi - lo < MAXN);
    if (t == 0) { __sym_assume(hi >= -120 && hi <= 120 && lo >= -120 && lo <= 120); }
    auto mk = [&](int x) { return t == 0 ? var((char)x) : t == 1 ? var(x) : t == 2 ? var((long)x) : var((double)x); };
    var vh = mk(hi), r;
    if (which == 0) r = irange(vh);
    else if (which == 1) r = irange(mk(lo), vh);
    else if (which == 2) r = range(vh);
    else r = range(mk(lo), vh);
    int n = (which & 2) ? hi - lo + 1 : hi - lo; if (n < 0) n = 0;
    if (n == 0) CHECK(!r.defined() || r.size() == 0, "no elements");
    else {
        CHECK(r.size() == n, "number of elements");
        var one = mk(0);
        CHECK(r.atype() == one.atype(), "the type of the bounds");
        for (int i = 0; i < n; i++) CHECK(r.at(i).cast<long>() == lo + i, "element of the range");
    }
    CHECK(vh.cast<long>() == hi, "argument is left alone");
    __sym_cover("defaults end");
}
// ranges of many elements, across the capacity steps
HARNESS(many) {
    static const int N[] = {7, 8, 9, 16, 17, 33, 65};
    int n = N[__sym_choice("elements", 0, 6)], t = (int)__sym_choice("type", 0, 4), st = (int)__sym_choice("step", 1, 3), incl = (int)__sym_choice("incl", 0, 1);
    static const int LO[] = {-70000, -33, 0, 5, 65530}; // floating point: given
    int lo, over = (int)__sym_choice("over", 0, st - 1);
    if (t > 2) lo = LO[__sym_choice("lower bound", 0, 4)]; else lo = (int)__sym_range("lo", -100000, 100000);
    if (t == 0) { __sym_assume(lo >= -128 && lo <= 127 - n * st); if (n * st > 120) return; }
    int hi = incl ? lo + (n - 1) * st + over : lo + n * st - over;
    auto mk = [&](int x) { return t == 0 ? var((char)x) : t == 1 ? var(x) : t == 2 ? var((long)x) : t == 3 ? var((float)x) : var((double)x); };
    var l = mk(lo), h = mk(hi), s = mk(st), r = incl ? range(l, h, s) : irange(l, h, s);
    CHECK(r.size() == n && r.atype() == l.atype(), "number of elements");
    for (int i = 0; i < n; i++) CHECK(r.at(i).cast<long>() == (long)lo + i * st, "element of the range");
    CHECK(l.cast<long>() == lo && h.cast<long>() == hi && s.cast<long>() == st, "arguments are left alone");
    __sym_cover("many end");
}
